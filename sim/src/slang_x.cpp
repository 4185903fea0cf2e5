// X01: scripts that fork and wait. Each process records what the simulated system
// told it; when it ends, a model of the script is executed on that record and must
// give the same events, console text and exit status.
#include "procs.h"
#include "world.h"
#include <cerrno>
#include <cstring>
#include <iostream>
#include <sys/wait.h>
int program_main(int argc, const char* argv[]);
using namespace sim;

namespace {

enum Kind { SetVar, SetField, SetText, SetItem, Event, Text, ForkOp, WaitOp, WaitPidOp, ExitOp, ReturnOp, ThrowOp, Loop, SleepOp, Call, Try };
struct Op { Kind k; int a = 0, b = 0, id = 0; std::vector<Op> body, other; };

int nextFork = 0, nextId = 0, forkBudget = 0;

std::vector<Op> block(int depth, bool inTry, bool inLoop, int lo, int hi);

Op gen(int depth, bool inTry, bool inLoop) {
	Op o; o.id = ++nextId;
	uint32_t k = draw(22);
	if ( k >= 12 && k <= 15 && forkBudget <= 0 ) k = draw(8);
	if ( depth > 3 && k >= 12 ) k = draw(12);
	switch ( k ) {
		case 0: case 1: o.k = SetVar; o.a = static_cast<int>(draw(3)); o.b = range(-20, 20); break;
		case 2: o.k = SetField; o.a = static_cast<int>(draw(2)); o.b = range(-20, 20); break;
		case 3: o.k = SetText; o.b = static_cast<int>(draw(26)); break;
		case 4: case 5: o.k = Event; o.a = static_cast<int>(draw(6)); break;
		case 6: case 7: o.k = Text; o.a = static_cast<int>(draw(6)); break;
		case 8: case 9: o.k = WaitOp; break;
		case 10: case 11: if ( nextFork == 0 ) { o.k = WaitOp; break; } o.k = WaitPidOp; o.a = static_cast<int>(draw(static_cast<uint32_t>(nextFork))); o.b = draw(3) == 0; break;
		case 12: case 13: case 14: case 15: {
			o.k = ForkOp; forkBudget -= inLoop ? 3 : 1;
			o.a = nextFork++;
			o.body = block(depth + 1, inTry, inLoop, 0, 5);
			uint32_t end = draw(5);
			if ( end <= 1 && !inTry ) { Op e; e.id = ++nextId; e.k = end == 0 ? ExitOp : ReturnOp; e.a = static_cast<int>(draw(2) ? draw(4) : draw(256)); o.body.push_back(e); }
			else if ( end == 2 ) { Op e; e.id = ++nextId; e.k = ThrowOp; e.a = 1; o.body.push_back(e); }
			o.other = block(depth + 1, inTry, inLoop, 0, 5);
			break;
		}
		case 16: o.k = SleepOp; o.b = range(1, 50); break;
		case 17: o.k = Loop; o.b = range(2, 3); o.body = block(depth + 1, inTry, true, 1, 4); break;
		case 18: case 19: if ( forkBudget <= 0 ) { o.k = Event; o.a = 0; break; } --forkBudget; o.k = Call; o.a = static_cast<int>(draw(3)); break;
		case 20: o.k = Try; o.body = block(depth + 1, true, inLoop, 1, 5); break;
		default: if ( inTry && draw(3) == 0 ) { o.k = ThrowOp; o.a = 2; } else { o.k = SetItem; o.a = static_cast<int>(draw(3)); o.b = range(1, 50); } break;
	}
	return o;
}
std::vector<Op> block(int depth, bool inTry, bool inLoop, int lo, int hi) {
	std::vector<Op> r;
	int n = range(lo, hi);
	for ( int i = 0; i < n; ++i ) {
		r.push_back(gen(depth, inTry, inLoop));
		if ( r.back().k == ThrowOp ) break;
	}
	return r;
}

const char* expr[] = { "v0", "v1", "v2", "o.x", "o.y", "strlen(s)" };

void print(const std::vector<Op>& ops, int ind, std::string& t) {
	std::string pad(static_cast<size_t>(ind), '\t');
	for ( auto& o : ops ) switch ( o.k ) {
		case SetVar: t += pad + fmt("v%d = v%d + %d;\n", o.a, o.a, o.b); break;
		case SetField: t += pad + fmt("o.%c = o.%c + %d;\n", "xy"[o.a], "xy"[o.a], o.b); break;
		case SetText: t += pad + fmt("s = s + \"%c\";\n", 'a' + o.b); break;
		case SetItem: t += pad + fmt("v%d = o.Add(%d);\n", o.a, o.b); break;
		case Event: t += pad + fmt("writei(1000, %s);\n", expr[o.a]); break;
		case Text: t += pad + fmt("write(\"<%d:\" + %s + \">\");\n", o.id, o.a == 5 ? "s" : expr[o.a]); break;
		case ForkOp:
			t += pad + fmt("p%d = fork();\n", o.a) + pad + fmt("writei(1000, p%d);\n", o.a) + pad + fmt("if ( p%d == 0 ) {\n", o.a);
			print(o.body, ind + 1, t);
			t += pad + "}\n" + pad + "else {\n";
			print(o.other, ind + 1, t);
			t += pad + "}\n";
			break;
		case WaitOp: t += pad + fmt("writei(1001, %d);\n", o.id) + pad + "w = wait();\n" + pad + "writei(1000, w);\n"; break;
		case WaitPidOp: t += pad + fmt("writei(1001, %d);\n", o.id) + pad + fmt("w = waitpid(p%d, %s);\n", o.a, o.b ? "WNOHANG" : "0") + pad + "writei(1000, w);\n"; break;
		case ExitOp: t += pad + fmt("if ( one == 1 ) { exit(%d); }\n", o.a); break;
		case ReturnOp: t += pad + fmt("if ( one == 1 ) { return %d; }\n", o.a); break;
		case ThrowOp: t += pad + "if ( one == 1 ) { throw 5; }\n"; break;
		case Loop: t += pad + fmt("for ( int i%d = 0; i%d < %d; i%d++ ) {\n", o.id, o.id, o.b, o.id); print(o.body, ind + 1, t); t += pad + "}\n"; break;
		case SleepOp: t += pad + fmt("sleep(%d);\n", o.b); break;
		case Call: t += pad + fmt("v%d = split(v%d);\n", o.a, o.a); break;
		case Try: t += pad + "try {\n"; print(o.body, ind + 1, t); t += pad + "}\n" + pad + "catch {\n" + pad + "\twritei(1000, 99);\n" + pad + "}\n" + pad + "finally {\n" + pad + "\twritei(1000, 98);\n" + pad + "}\n"; break;
	}
}

// --- record of one process -----------------------------------------------------

struct Rec { int type, result, status, arg, options; };		// type 0: fork, 1: wait, 2: mark
std::vector<Rec> rec;
std::vector<int> events;
std::string text;
std::vector<Op> program;

// --- model -----------------------------------------------------------------------

enum Flow { Normal, Exited, Returned, Thrown, Stopped };
struct Model {
	int v[3] = { 1, 2, 3 }, f[2] = { 10, 20 }, w = 0; std::vector<int> p; std::string s = "s";
	size_t at = 0;
	std::vector<int> ev; std::string out;
	int status = 0;
	bool born = false;
	std::string why;
	int val(int a) { return a < 3 ? v[a] : a < 5 ? f[a - 3] : static_cast<int>(s.size()); }
	bool doFork(int& r) {
		if ( at >= rec.size() ) return false;
		if ( rec[at].type != 0 ) { why = "a call of fork() was expected next"; return false; }
		r = rec[at].result; ++at;
		if ( r == 0 ) { ev.clear(); out.clear(); }
		if ( r < 0 ) r = -1;
		return true;
	}
	Flow run(const std::vector<Op>& ops) {
		for ( auto& o : ops ) { Flow x = one(o); if ( x != Normal ) return x; }
		return Normal;
	}
	Flow one(const Op& o) {
		switch ( o.k ) {
			case SetVar: v[o.a] += o.b; break;
			case SetField: f[o.a] += o.b; break;
			case SetText: s += static_cast<char>('a' + o.b); break;
			case SetItem: f[1] += o.b; v[o.a] = f[1]; break;
			case Event: ev.push_back(val(o.a)); break;
			case Text: out += fmt("<%d:", o.id) + (o.a == 5 ? s : fmt("%d", val(o.a))) + ">"; break;
			case ForkOp: {
				int r;
				if ( !doFork(r) ) return Stopped;
				p[static_cast<size_t>(o.a)] = r; ev.push_back(r);
				return run(r == 0 ? o.body : o.other);
			}
			case WaitOp: case WaitPidOp: {
				if ( at >= rec.size() ) return Stopped;
				if ( rec[at].type != 2 || rec[at].arg != o.id ) { why = fmt("the mark of operation %d was expected next", o.id); return Stopped; }
				++at;
				int want = o.k == WaitOp ? -1 : p[static_cast<size_t>(o.a)], calls = 0;
				w = -1;
				for ( ; at < rec.size() && rec[at].type == 1; ++at, ++calls ) {
					if ( w != -1 ) { why = fmt("operation %d waited again after a process had been reported", o.id); return Stopped; }
					if ( o.k == WaitOp ? rec[at].arg > 0 : rec[at].arg != want ) { why = fmt("operation %d waited for %d instead of %d", o.id, rec[at].arg, want); return Stopped; }
					bool hang = o.k == WaitPidOp && o.b;
					if ( ((rec[at].options & WNOHANG) != 0) != hang ) { why = fmt("operation %d waited with options %d", o.id, rec[at].options); return Stopped; }
					if ( rec[at].result > 0 ) w = o.k == WaitOp ? rec[at].result : rec[at].status;
				}
				if ( !calls ) { if ( at >= rec.size() ) return Stopped; why = fmt("operation %d did not wait", o.id); return Stopped; }
				ev.push_back(w);
				break;
			}
			case ExitOp: status = o.a; return Exited;
			case ReturnOp: status = o.a; return Returned;
			case ThrowOp: return Thrown;
			case Loop: for ( int i = 0; i < o.b; ++i ) { Flow x = run(o.body); if ( x != Normal ) return x; } break;
			case SleepOp: break;
			case Call: {
				int r;
				if ( !doFork(r) ) return Stopped;
				int x = v[o.a];
				x += r == 0 ? 100 : r < 0 ? 7 : 1000;
				ev.push_back(x);
				v[o.a] = x;
				break;
			}
			case Try: {
				Flow x = run(o.body);
				if ( x == Thrown ) { ev.push_back(99); x = Normal; }
				if ( x == Stopped || x == Exited ) return x;
				ev.push_back(98);
				return x;
			}
		}
		return Normal;
	}
};

std::string list(const std::vector<int>& v) { std::string s; for ( int x : v ) s += fmt(" %d", x); return s; }

void judge(bool complete, int status) {
	Model m; m.p.assign(static_cast<size_t>(nextFork), 0);
	Flow x = m.run(program);
	if ( !m.why.empty() ) violation("wrong-calls", fmt("process %d: ", me) + m.why);
	if ( x == Normal ) m.status = 0;
	if ( x == Thrown ) m.status = 255;
	if ( x == Thrown && text.size() > m.out.size() ) text.resize(m.out.size());		// the interpreter's report follows
	S->evalUnits += events.size() + 1;
	if ( !complete ) {
		if ( events.size() > m.ev.size() || !std::equal(events.begin(), events.end(), m.ev.begin()) ) violation("wrong-values", fmt("process %d showed%s\ninstead of a beginning of%s", me, list(events).c_str(), list(m.ev).c_str()));
		if ( m.out.compare(0, text.size(), text) != 0 ) violation("wrong-output", fmt("process %d wrote %s\ninstead of a beginning of %s", me, quote(text).c_str(), quote(m.out).c_str()));
		return;
	}
	if ( events != m.ev ) violation("wrong-values", fmt("process %d showed%s\ninstead of%s", me, list(events).c_str(), list(m.ev).c_str()));
	if ( x == Stopped || m.at != rec.size() ) violation("wrong-calls", fmt("process %d ended %s", me, x == Stopped ? "early" : "after more calls than the script asks for"));
	if ( text != m.out ) violation("wrong-output", fmt("process %d wrote %s\ninstead of %s", me, quote(text).c_str(), quote(m.out).c_str()));
	if ( status != m.status ) violation("wrong-status", fmt("process %d ended with status %d instead of %d", me, status, m.status));
}

void finish(int st) {
	std::cout.flush(); std::cerr.flush(); fflush(nullptr);
	sim::log("process %d wrote %s", me, quote(text).c_str());
	judge(true, st & 0xff);
	if ( me ) procExit((st & 0xff) << 8);
	drainProcesses((st & 0xff) << 8);
	held();
}

void x01() {
	forkBudget = range(1, 8);
	bool faults = draw(3) != 0;
	static uint32_t forkFail, eintr;
	switchRate = draw(5) ? static_cast<uint32_t>(range(20, 500)) : 0;
	forkFail = faults && draw(2) ? static_cast<uint32_t>(range(50, 400)) : 0;
	eintr = faults && draw(2) ? static_cast<uint32_t>(range(50, 400)) : 0;
	killRate = faults && draw(3) == 0 ? static_cast<uint32_t>(range(5, 60)) : 0;
	bool unbuffered = draw(3) == 0;
	program = block(0, false, false, 3, 12);
	std::string t = "public object Box {\n\tpublic int x;\n\tpublic int y;\n\tpublic void Constructor() {\n\t\tx = 10;\n\t\ty = 20;\n\t}\n\tpublic int Add(int n) modify {\n\t\ty = y + n;\n\t\treturn y;\n\t}\n}\n"
		"public int split(int x) modify throws {\n\tint p = fork();\n\tif ( p == 0 ) { x = x + 100; }\n\telse if ( p < 0 ) { x = x + 7; }\n\telse { x = x + 1000; }\n\twritei(1000, x);\n\treturn x;\n}\n"
		"public int Main(int argc = 0, string args = \"\") modify throws {\n\tint one = 1;\n\tint v0 = 1;\n\tint v1 = 2;\n\tint v2 = 3;\n\tint w = 0;\n\tstring s = \"s\";\n\tBox o = new Box();\n";
	for ( int i = 0; i < nextFork; ++i ) t += fmt("\tint p%d = 0;\n", i);
	print(program, 1, t);
	t += "\treturn 0;\n}\n";
	logs(t);
	putFile("/simfs/work/main.os", t);
	for ( int i = 0; i < 2; ++i ) { OpenFile f; f.device = i; f.readable = f.writable = true; W.fds[1000 + i] = f; }
	W.nextFd = 1100;
	W.socketWrite = [](int fd, const void* buf, size_t n) -> long {
		int v; if ( n != sizeof v ) violation("wrong-values", "an integer event has the wrong size");
		memcpy(&v, buf, sizeof v);
		if ( fd == 1001 ) { rec.push_back({ 2, 0, 0, v, 0 }); return static_cast<long>(n); }
		sim::log("process %d: %d", me, v);
		note(mix(static_cast<uint64_t>(me), static_cast<uint64_t>(v)));
		events.push_back(v);
		return static_cast<long>(n);
	};
	W.onOutput = [](int fd, const std::string& b) { if ( fd == 1 ) text += b; else sim::log("process %d stderr: %s", me, b.c_str()); };
	W.onFork = []() -> int {
		int r = 0;
		if ( draw(1000) < forkFail ) { r = draw(2) ? -EAGAIN : -ENOMEM; count("fault.fork"); sim::log("  ! fork fails"); }
		else { count("forks"); r = procFork(); }
		if ( r == 0 ) { events.clear(); text.clear(); }
		rec.push_back({ 0, r, 0, 0, 0 });
		return r;
	};
	W.onWait = [](int pid, int* status, int options) -> int {
		int st = 0, r;
		if ( draw(1000) < eintr ) { r = -EINTR; count("fault.wait-interrupted"); sim::log("  ! wait interrupted"); }
		else r = procWait(pid, &st, options);
		if ( r > 0 && status ) *status = st;
		count(r > 0 ? "waits" : r == 0 ? "waits-none-ended" : r == -ECHILD ? "waits-no-child" : "waits-interrupted");
		rec.push_back({ 1, r, st, pid, options });
		return r;
	};
	W.onTick = [] { procPoint(); };
	W.onExit = finish;
	onKill = [] { judge(false, 0); };
	installStdio(unbuffered);
	startProcesses();
	const char* argv[] = { "slang", "/simfs/work/main.os", nullptr };
	int st = program_main(2, argv);
	finish(st);
}

Register r1("X01", x01);

}
