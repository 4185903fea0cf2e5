// S01: the application server against a simulated web server.  The FastCGI
// library is replaced by a stand-in that behaves like libfcgi at its
// interface; worker processes are simulated processes.
#include "sim.h"
#include "world.h"
#include "procs.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <fcgiapp.h>
#include <iostream>
#include <map>
#include <sys/mman.h>
int program_main(int argc, const char* argv[]);
using namespace sim;

namespace {

// --- web server ----------------------------------------------------------------

struct Request {
	std::map<std::string, std::string> params;
	bool keep = false;			// the web server keeps the connection
	bool reuse = false;			// sent on the connection of the previous request if that is still open
	int conn = 0;
};
std::vector<Request> requests;
int upcoming = 0;				// next request to be accepted (only the server itself accepts)
size_t flushSize = 64;

// what arrived at the web server, seen by all processes
struct Record { int request; char type; int by; uint32_t off, len; };	// type: d data, e end of request, c connection closed
struct Wire {
	int n; uint32_t used; int forkFailed[64], killed[64], waitInterrupted;
	int worker[64];
	Record r[4000]; char data[8 << 20];
};
Wire* wire;

bool closed(int request) {
	for ( int i = 0; i < wire->n; ++i ) if ( wire->r[i].type == 'c' && requests[static_cast<size_t>(wire->r[i].request)].conn == requests[static_cast<size_t>(request)].conn ) return true;
	return false;
}
void arrive(int request, char type, const std::string& d = "") {
	if ( closed(request) ) return;		// nobody listens any more
	if ( wire->n >= 4000 || wire->used + d.size() > sizeof wire->data ) harnessError("too much data");
	Record& x = wire->r[wire->n++];
	x = { request, type, me, wire->used, static_cast<uint32_t>(d.size()) };
	memcpy(wire->data + wire->used, d.data(), d.size());
	wire->used += static_cast<uint32_t>(d.size());
	sim::log("  process %d, request %d: %s", me, request, type == 'd' ? quote(d).c_str() : type == 'e' ? "end of request" : "closes the connection");
	note(mix(static_cast<uint64_t>(type), static_cast<uint64_t>(request * 100 + me)));
	if ( type == 'e' && me ) killRate = 0;		// that it died cannot be told apart from dying before
}

struct Stream : FCGX_Stream { int request = 0; bool out = false, ended = false; std::string buf; FCGX_Request* owner = nullptr; };
Stream* cast(FCGX_Stream* s) { return static_cast<Stream*>(s); }

void flush(Stream* s) { if ( !s->buf.empty() && s->out ) arrive(s->request, 'd', s->buf); s->buf.clear(); }
int put(FCGX_Stream* f, const char* p, int n) {
	Stream* s = cast(f);
	if ( !s || s->ended ) return -1;
	for ( int i = 0; i < n; ++i ) { s->buf += p[i]; if ( s->buf.size() >= flushSize ) { procPoint(); flush(s); } }
	return closed(s->request) ? -1 : n;
}
}

extern "C" {

int FCGX_Init(void) { return 0; }
int FCGX_IsCGI(void) { return 0; }
int FCGX_InitRequest(FCGX_Request* r, int sock, int flags) { memset(r, 0, sizeof *r); r->listen_sock = sock; r->flags = flags; r->ipcFd = -1; return 0; }
int FCGX_FClose(FCGX_Stream* f) {
	Stream* s = cast(f);
	if ( !s || s->ended ) return 0;
	procPoint();
	flush(s);
	s->ended = true;
	if ( s->owner && --s->owner->nWriters == 0 && s->owner->isBeginProcessed ) arrive(s->request, 'e');
	return 0;
}
int FCGX_FFlush(FCGX_Stream* f) { if ( f ) flush(cast(f)); return 0; }
int FCGX_GetError(FCGX_Stream*) { return 0; }
void FCGX_ClearError(FCGX_Stream*) {}
void FCGX_FreeStream(FCGX_Stream** f) { if ( f && *f ) { delete cast(*f); *f = nullptr; } }
void FCGX_Free(FCGX_Request* r, int close) {
	if ( !r ) return;
	int request = r->in ? cast(r->in)->request : r->requestId;
	FCGX_FreeStream(&r->in); FCGX_FreeStream(&r->out); FCGX_FreeStream(&r->err);
	if ( r->envp ) { for ( char** e = r->envp; *e; ++e ) free(*e); delete[] r->envp; r->envp = nullptr; }
	if ( close && r->ipcFd >= 0 ) { if ( !r->detached ) arrive(request, 'c'); r->ipcFd = -1; r->detached = 0; }
}
void FCGX_Finish_r(FCGX_Request* r) {
	if ( !r ) return;
	int close = !r->keepConnection;
	if ( r->in ) { close |= FCGX_FClose(r->err); close |= FCGX_FClose(r->out); }
	FCGX_Free(r, close);
}
int FCGX_Accept_r(FCGX_Request* r) {
	FCGX_Finish_r(r);
	procPoint();
	if ( me != 0 ) violation("worker-accepts", "a worker process accepts requests of the server");
	if ( upcoming >= static_cast<int>(requests.size()) ) return -1;
	int i = upcoming++;
	Request& q = requests[static_cast<size_t>(i)];
	q.conn = i;
	if ( r->ipcFd >= 0 ) {
		if ( q.reuse && i > 0 && !closed(i - 1) ) { q.conn = requests[static_cast<size_t>(i - 1)].conn; count("probe.connection-reused"); }
		else { arrive(i - 1, 'c'); r->ipcFd = -1; }		// the web server gives the old connection up
	}
	r->requestId = i; r->ipcFd = 10; r->keepConnection = q.keep; r->isBeginProcessed = 1; r->appStatus = 0; r->nWriters = 2;
	for ( FCGX_Stream** f : { &r->in, &r->out, &r->err } ) { Stream* s = new Stream(); s->request = i; s->owner = f == &r->in ? nullptr : r; s->out = f == &r->out; *f = s; }
	r->envp = new char*[q.params.size() + 1];
	size_t k = 0;
	for ( auto& p : q.params ) r->envp[k++] = strdup((p.first + "=" + p.second).c_str());
	r->envp[k] = nullptr;
	sim::log("request %d on connection %d%s", i, q.conn, q.keep ? " (kept open)" : "");
	for ( auto& p : q.params ) sim::log("  %s=%s", p.first.c_str(), p.second.c_str());
	return 0;
}
char* FCGX_GetParam(const char* name, FCGX_ParamArray envp) {
	size_t n = strlen(name);
	if ( envp ) for ( char** e = envp; *e; ++e ) if ( strncmp(*e, name, n) == 0 && (*e)[n] == '=' ) return *e + n + 1;
	return nullptr;
}
int FCGX_PutStr(const char* p, int n, FCGX_Stream* f) { return put(f, p, n); }
int FCGX_PutS(const char* p, FCGX_Stream* f) { return put(f, p, static_cast<int>(strlen(p))); }
int FCGX_PutChar(int c, FCGX_Stream* f) { char x = static_cast<char>(c); return put(f, &x, 1) < 0 ? -1 : c; }
int FCGX_VFPrintF(FCGX_Stream* f, const char* format, va_list a) { char* t = nullptr; int n = vasprintf(&t, format, a); int r = put(f, t, n); free(t); return r; }
int FCGX_FPrintF(FCGX_Stream* f, const char* format, ...) { va_list a; va_start(a, format); int r = FCGX_VFPrintF(f, format, a); va_end(a); return r; }
int FCGX_GetChar(FCGX_Stream*) { return -1; }
int FCGX_GetStr(char*, int, FCGX_Stream*) { return 0; }
char* FCGX_GetLine(char*, int, FCGX_Stream*) { return nullptr; }
int FCGX_HasSeenEOF(FCGX_Stream*) { return 1; }
void FCGX_SetExitStatus(int, FCGX_Stream*) {}
int FCGX_OpenSocket(const char*, int) { return 0; }
void FCGX_ShutdownPending(void) {}

}

namespace {

// --- services --------------------------------------------------------------------

enum Kind { Text, Env, Count, Item, Local, CtorCaught, CtorUncaught, Caught, Uncaught, MethodUncaught, Exit, Ret, Repeat, Library, Args };
struct Op { Kind k; int a = 0, b = 0; };
struct Service { std::string path, function; std::vector<Op> ops; };
std::vector<Service> services;
int defaultService = -1;
const char* ENV[] = { "QUERY_STRING", "REQUEST_METHOD", "REQUEST_URI", "PATH_INFO", "HTTP_COOKIE", "REMOTE_ADDR", "CONTENT_TYPE", "HTTP_HOST", "REMOTE_USER",
	"HTTP_ACCEPT", "HTTP_FORWARDED", "HTTP_PROXY_CONNECTION", "HTTP_REFERER", "HTTP_USER_AGENT", "REQUEST_SCHEME", "DOCUMENT_URI", "REQUEST_FILENAME", "SCRIPT_FILENAME", "LAST_MODIFIED",
	"SCRIPT_USER", "SCRIPT_GROUP", "IS_SUBREQ", "THE_REQUEST", "REMOTE_PORT", "REMOTE_HOST", "REMOTE_IDENT", "SERVER_NAME", "SERVER_PORT", "SERVER_ADMIN", "SERVER_PROTOCOL", "DOCUMENT_ROOT",
	"AUTH_TYPE", "HANDLER", "HTTP2", "HTTPS", "IPV6", "REQUEST_STATUS", "REQUEST_LOG_ID", "CONN_LOG_ID", "CONN_REMOTE_ADDR", "CONTEXT_PREFIX", "CONTEXT_DOCUMENT_ROOT" };
constexpr int OFTEN = 9, NENV = sizeof ENV / sizeof *ENV;
std::string given;				// the parameters of the script

std::string source(const Op& o) {
	switch ( o.k ) {
		case Text: return fmt("\twrite(\"t%d;\");\n", o.a);
		case Env: return fmt("\twrite(\"%s=\" + getenv(\"%s\") + \";\");\n", ENV[o.a], ENV[o.a]);
		case Count: return "\tcounter = counter + 1;\n\twrite(\"n\" + counter + \";\");\n";
		case Item: return fmt("\tbox.n = box.n + %d;\n\twrite(\"b\" + box.n + \";\");\n", o.a);
		case Local: return fmt("\tx = x + %d;\n\twrite(\"x\" + x + \";\");\n", o.a);
		case CtorCaught: return "\ttry {\n\t\tThing t = new Thing(1);\n\t\twrite(\"wrong\");\n\t}\n\tcatch ( int e ) {\n\t\twrite(\"c\" + e + \";\");\n\t}\n";
		case CtorUncaught: return "\tif ( x >= 0 ) {\n\t\tThing u = new Thing(1);\n\t\twrite(\"wrong\");\n\t}\n";
		case Caught: return "\ttry {\n\t\tbox.Fail(7);\n\t\twrite(\"wrong\");\n\t}\n\tcatch ( int e ) {\n\t\twrite(\"m\" + e + \";\");\n\t}\n";
		case Uncaught: return fmt("\tif ( x >= 0 ) { throw %s; }\n", o.a ? "\"text\"" : "5");
		case MethodUncaught: return "\tbox.Fail(9);\n";
		case Exit: return fmt("\tif ( x >= 0 ) { exit(%d); }\n", o.a);
		case Ret: return "\tif ( x >= 0 ) { return; }\n";
		case Library: return "\twrite(help() + \";\");\n";
		case Args: return "\twrite(given + \";\");\n";
		case Repeat: return fmt("\tfor ( int i = 0; i < %d; i++ ) { write(\"line \" + i + \";\"); }\n", o.a);
	}
	return "";
}
// the response of a service, or an exception
bool response(const Service& s, const Request& q, std::string& out) {
	int counter = 100, box = 5, x = 0;
	for ( auto& o : s.ops ) switch ( o.k ) {
		case Text: out += fmt("t%d;", o.a); break;
		case Env: { auto i = q.params.find(ENV[o.a]); out += std::string(ENV[o.a]) + "=" + (i == q.params.end() ? "" : i->second) + ";"; break; }
		case Count: out += fmt("n%d;", ++counter); break;
		case Item: box += o.a; out += fmt("b%d;", box); break;
		case Local: x += o.a; out += fmt("x%d;", x); break;
		case CtorCaught: out += "c3;"; break;
		case Caught: out += "m7;"; break;
		case CtorUncaught: case Uncaught: case MethodUncaught: return false;
		case Exit: case Ret: return true;
		case Library: out += "helped;"; break;
		case Args: out += given + ";"; break;
		case Repeat: for ( int i = 0; i < o.a; ++i ) out += fmt("line %d;", i); break;
	}
	return true;
}

void judge(int status) {
	sim::log("server ended with status %d", status);
	if ( upcoming < static_cast<int>(requests.size()) ) violation("server-stopped", fmt("the server stopped with status %d after %d of %zu requests", status, upcoming, requests.size()));
	for ( size_t i = 0; i < requests.size(); ++i ) {
		Request& q = requests[i];
		std::string got; int ends = 0, writers = 0; bool late = false, gone = false;
		std::map<int, bool> by;
		for ( int k = 0; k < wire->n; ++k ) {
			Record& x = wire->r[k];
			if ( x.type == 'c' && requests[static_cast<size_t>(x.request)].conn == q.conn ) gone = true;
			if ( x.request != static_cast<int>(i) ) continue;
			if ( x.type == 'd' ) { if ( ends ) late = true; got.append(wire->data + x.off, x.len); by[x.by] = true; }
			if ( x.type == 'e' ) ++ends;
		}
		writers = static_cast<int>(by.size());
		S->evalUnits += 2;
		std::string what = fmt("request %zu", i);
		if ( ends == 0 ) violation("not-answered", what + " was not answered" + (gone ? ", its connection was closed" : ""));
		if ( ends > 1 ) violation("answered-twice", what + fmt(" was ended %d times", ends));
		if ( late ) violation("answered-twice", what + ": data after the end of the response");
		std::string path; auto p = q.params.find("PATH_INFO"); if ( p != q.params.end() ) path = p->second;
		const Service* s = nullptr;
		if ( path.empty() ) { if ( defaultService >= 0 ) s = &services[static_cast<size_t>(defaultService)]; }
		else for ( auto& x : services ) if ( x.path == path ) s = &x;
		std::string want; bool ok = s && response(*s, q, want);
		bool error = got.empty() || got.compare(0, 9, "Status: 5") == 0;
		if ( wire->forkFailed[i] ) {
			// a server may try again, then the regular answer is right, too
			if ( !error && got != want ) violation("wrong-response", what + ": no process could be created, answered with " + quote(got));
			count("probe.answered-without-worker");
		}
		else if ( wire->killed[i] ) {
			// the answer may have been sent in part; then only its end can follow
			if ( writers < 2 && !error && got != want && want.compare(0, got.size(), got) != 0 && !(!s && got.find("404") != std::string::npos) && !(s && !ok) ) violation("wrong-response", what + ": its worker died, answered with " + quote(got));
			count("probe.answered-for-dead-worker");
		}
		else if ( !s ) { if ( got.compare(0, 11, "Status: 404") != 0 ) violation("wrong-response", what + " to an unknown service was answered with " + quote(got)); count("probe.not-found"); }
		else if ( !ok ) { if ( !error ) violation("failure-not-reported", what + ": its script failed, but the answer is " + quote(got)); count("probe.script-failed"); }
		else { if ( got != want ) violation("wrong-response", what + " was answered with\n" + quote(got) + "\ninstead of\n" + quote(want)); count("probe.answered"); }
	}
}

void finish(int st) {
	std::cout.flush(); std::cerr.flush(); fflush(nullptr);
	if ( me ) procExit((st & 0xff) << 8);
	drainProcesses((st & 0xff) << 8);
	judge(st & 0xff);
	held();
}

std::string value(int e, int i) {
	static const char* odd[] = { "", "a=1&b=2", "%20%d%s%n", "x;y=\\z", "\"q\" 'r'", "a\tb" };
	if ( draw(5) == 4 ) return odd[draw(6)];
	return fmt("%c%d-%d", 'a' + e % 26, i, range(0, 9));
}

void s01() {
	wire = static_cast<Wire*>(mmap(nullptr, sizeof(Wire), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if ( wire == MAP_FAILED ) harnessError("no shared memory");
	static uint32_t forkFail, eintr;
	bool faults = draw(3) != 0;
	forkFail = faults && draw(2) ? static_cast<uint32_t>(range(50, 400)) : 0;
	eintr = faults && draw(2) ? static_cast<uint32_t>(range(50, 500)) : 0;
	killRate = faults && draw(3) == 2 ? static_cast<uint32_t>(range(10, 150)) : 0;
	switchRate = draw(3) ? static_cast<uint32_t>(range(20, 500)) : 0;
	static const size_t sizes[] = { 8192, 64, 16, 5 };
	flushSize = sizes[draw(4)];
	bool large = draw(16) == 15;		// long values and responses
	if ( large ) flushSize = 8192;

	int n = draw(10) == 9 ? range(5, 12) : range(1, 4);
	bool library = draw(3) == 2;
	std::string text = std::string(library ? "import Helper;\n" : "") + "public object Thing {\n\tpublic void Constructor(int n) throws {\n\t\tif ( n == 1 ) { throw 3; }\n\t}\n}\n"
		"public object Box {\n\tpublic int n;\n\tpublic void Constructor() {\n\t\tn = 5;\n\t}\n\tpublic void Fail(int e) const throws {\n\t\tif ( e > 0 ) { throw e; }\n\t}\n}\n"
		"int counter = 100;\nBox box;\nstring given;\n";
	std::string json;
	for ( int i = 0; i < n; ++i ) {
		Service s; s.path = fmt("/s%d", i); s.function = fmt("service%d", i);
		if ( i == 3 ) s.path = "/s1/sub";
		int ops = range(1, 6);
		for ( int k = 0; k < ops; ++k ) {
			Op o; o.k = static_cast<Kind>(drawWeighted({ 4, 6, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, large ? 6u : 1u, library ? 3u : 0u, 1 }));
			o.a = o.k == Env ? static_cast<int>(draw(draw(3) == 2 ? NENV : OFTEN)) : o.k == Repeat ? (large ? range(60, 2400) : range(1, 60)) : o.k == Exit ? static_cast<int>(draw(3)) : range(1, 9);
			if ( o.k == Uncaught ) o.a %= 2;
			s.ops.push_back(o);
		}
		text += "public void " + s.function + "() modify throws {\n\tint x = 0;\n";
		for ( auto& o : s.ops ) text += source(o);
		text += "}\n";
		json += fmt("%s\"%s\": \"%s\"", i ? ", " : "", s.path.c_str(), s.function.c_str());
		services.push_back(s);
	}
	text += "public void Main(int argc = 0, string args = \"\") modify throws {\n\tbox = new Box();\n\tgiven = args;\n\twrite(\"started\");\n}\n";
	json = "{ \"services\": { " + json + " }";
	if ( draw(3) ) { defaultService = static_cast<int>(draw(static_cast<uint32_t>(n))); json += fmt(", \"default\": \"%s\"", services[static_cast<size_t>(defaultService)].function.c_str()); }
	json += " }";
	putFile("/simfs/work/app.os", text);
	putFile("/simfs/work/services.json", json);
	logs(text); logs(json);
	bool many = !large && draw(20) == 19;
	if ( many && flushSize < 64 ) flushSize = 64;
	int m = many ? range(20, 40) : range(1, 8);
	for ( int i = 0; i < m; ++i ) {
		Request q;
		q.keep = draw(2); q.reuse = draw(4) != 3;
		for ( int e = 0; e < NENV; ++e ) if ( e == 3 ? draw(5) != 4 : e < OFTEN ? draw(4) != 3 : draw(4) == 3 ) q.params[ENV[e]] = large && draw(6) == 5 ? bulk() : value(e, i);
		if ( q.params.count("PATH_INFO") ) { uint32_t k = draw(8); q.params["PATH_INFO"] = k == 7 ? "" : k == 6 ? "/unknown" : k == 5 ? services[0].path + "x" : services[draw(static_cast<uint32_t>(n))].path; }
		requests.push_back(q);
	}
	W.onFork = []() -> int {
		int r;
		int request = upcoming - 1;
		if ( draw(1000) < forkFail ) { count("fault.fork"); sim::log("  ! fork fails"); if ( me == 0 && request >= 0 ) wire->forkFailed[request] = 1; return draw(2) ? -EAGAIN : -ENOMEM; }
		count("forks");
		r = procFork();
		return r;
	};
	W.onWait = [](int pid, int* status, int options) -> int {
		if ( draw(1000) < eintr ) { count("fault.wait-interrupted"); sim::log("  ! wait interrupted"); return -EINTR; }
		int st = 0;
		int r = procWait(pid, &st, options);
		if ( r > 0 && status ) *status = st;
		return r;
	};
	W.onTick = [] { procPoint(); };
	W.onExit = finish;
	W.onOutput = [](int fd, const std::string& b) { if ( fd == 2 ) sim::log("process %d stderr: %s", me, b.c_str()); };
	onKill = [] { wire->killed[upcoming - 1] = 1; };
	installStdio(false);
	processLimit = MAX_PROCS;
	startProcesses();
	std::vector<const char*> argv = { "slang-app" };
	if ( library ) {
		putFile("/simfs/liba/Helper.os", "public string help() {\n\treturn \"helped\";\n}\n");
		switch ( draw(4) ) {
			case 0: argv.push_back("-l"); argv.push_back("/simfs/liba"); break;
			case 1: argv.push_back("--library"); argv.push_back("/simfs/liba/"); break;
			case 2: setenv("SLANG_LIBRARY", "/simfs/liba", 1); break;
			default: setenv("SLANG_LIBRARY", "/simfs/liba/:/simfs/other", 1); break;
		}
	}
	if ( draw(4) == 3 ) argv.push_back(draw(2) ? "-v" : "--verbose");
	switch ( draw(3) ) { case 0: argv.push_back("-f"); break; case 1: argv.push_back("--file"); break; default: break; }
	argv.push_back("/simfs/work/app.os"); given = argv.back();
	static const char* params[] = { "one", "-l", "two words", "--version" };
	if ( draw(3) == 2 ) for ( int i = range(1, 3); i > 0; --i ) { argv.push_back(params[draw(4)]); given += std::string("\n") + argv.back(); }
	argv.push_back(nullptr);
	int st = program_main(static_cast<int>(argv.size()) - 1, argv.data());
	finish(st);
}

Register r1("S01", s01);

}
