// V01: several scripts, each in a virtual machine of its own, one after another in one
// process. Everything each of them does is compared with what the same script does in a
// process of its own.
#include "lang.h"
#include <algorithm>
#include <cstring>
#include <iostream>

#include <Core/Common/Exceptions.h>
#include <Core/Runtime/BuildInTypes/Int32Type.h>
#include <Core/Runtime/BuildInTypes/StringType.h>
#include <Core/Runtime/Script.h>
#include <Core/VirtualMachine/Controller.h>
#include <Core/VirtualMachine/VirtualMachine.h>
#include <Extensions.h>
using namespace sim;

namespace {

struct Answer { int value; bool fail; int err; };
struct Session {
	std::string kind, path, text;
	bool write = true;				// the script file exists
	int runs = 1;
	bool collect = true, library = false;
	std::vector<Answer> answers;	// outcome of the device calls in order
	std::string alone;				// what it does in a process of its own
};
std::vector<Session> sessions;

// recording of the session that is running
std::string rec, partial;
size_t nextAnswer = 0;
Session* now = nullptr;
bool recordDestroyed = true;
bool loading = false;		// the order of diagnostics depends on addresses, so they are not compared
long left = 0;				// files left open by the session

void event(const std::string& s) { rec += s + "\n"; sim::log("  %s", s.c_str()); }
void flushPartial() { if ( !partial.empty() ) { std::string l; l.swap(partial); event("> " + l + "..."); } }

long answer(int fd, void* buf, size_t n, const char* what, const std::string& arg) {
	if ( fd == lang::DEV_DTOR ) { if ( recordDestroyed ) event("destroyed " + arg); return static_cast<long>(n); }
	Answer a = nextAnswer < now->answers.size() ? now->answers[nextAnswer] : Answer{ 1, false, 0 };
	++nextAnswer;
	event(fmt("%s %d %s -> %s", what, fd, arg.c_str(), a.fail ? "fails" : fmt("%d", a.value).c_str()));
	if ( a.fail ) return -a.err;
	if ( buf ) { if ( n == 4 ) memcpy(buf, &a.value, 4); else memset(buf, a.value, n); }
	return static_cast<long>(n);
}

void install() {
	for ( int i = 0; i < 100; ++i ) { OpenFile f; f.device = i; f.readable = f.writable = true; W.fds[lang::DEV_BASE + i] = f; }
	W.nextFd = lang::DEV_BASE + 100;
	W.socketRead = [](int fd, void* b, size_t n) { return answer(fd, b, n, "read", ""); };
	W.socketWrite = [](int fd, const void* b, size_t n) {
		int v = 0; if ( n == 4 ) memcpy(&v, b, 4);
		return answer(fd, nullptr, n, "write", fmt("%d", v));
	};
	W.onOutput = [](int fd, const std::string& b) {
		for ( char c : b ) {
			if ( c == '\n' ) { std::string l; l.swap(partial); if ( loading ) sim::log("  %d> %s", fd, l.c_str()); else event(fmt("%d> ", fd) + l); }
			else partial += c;
		}
	};
	W.onExit = [](int st) { violation("ends-the-process", fmt("the script ended the whole process with status %d", st)); };
	W.logOpens = false;
	installStdio(true);
}

// does what main() of slang does, but may be called repeatedly
std::string session(Session& s) {
	using namespace Slang;
	now = &s;
	rec.clear(); partial.clear();
	recordDestroyed = true;
	long open = W.opens - W.closes;
	{
		VirtualMachine vm;
		vm.addExtension(new Extensions::System::SystemExtension());
		vm.addExtension(new Extensions::LIBC::Extension());
		vm.settings().DoCollectErrors = s.collect;
		vm.init();
		if ( s.library ) vm.addLibraryFolder("/simfs/lib");
		Script* script = nullptr;
		loading = true;
		try { script = vm.createScriptFromFile(s.path); loading = false; }
		catch ( std::exception& e ) { loading = false; flushPartial(); event(s.collect ? std::string("load failed: ") + e.what() : "load failed"); }
		catch ( Runtime::ControlFlow::E& e ) { loading = false; flushPartial(); event(fmt("load failed: %d", e)); }
		for ( int i = 0; script && i < s.runs; ++i ) {
			nextAnswer = 0;
			event(fmt("-- run"));
			Runtime::Object result;
			ParameterList params;
			params.push_back(Parameter::CreateRuntime(Runtime::Int32Type::TYPENAME, 1));
			params.push_back(Parameter::CreateRuntime(Runtime::StringType::TYPENAME, s.path));
			try {
				vm.run(script, params, &result);
				flushPartial();
				event(fmt("returned %d", result.getValue().toInt()));
			}
			catch ( Runtime::ControlFlow::E& e ) {
				flushPartial();
				if ( e == Runtime::ControlFlow::ExitProgram ) event(fmt("exited %d", result.getValue().toInt()));
				else if ( e == Runtime::ControlFlow::Throw ) {
					auto& x = Controller::Instance().thread(0)->exception();
					std::string text = x.getData() ? x.getData()->ToString() : "nothing";
					// objects are described with their address
					for ( size_t at; (at = text.find("0x")) != std::string::npos; ) { size_t end = at + 2; while ( end < text.size() && isxdigit(static_cast<unsigned char>(text[end])) ) ++end; text.replace(at, end - at, "@"); }
					event("uncaught in " + x.getPosition().toString() + " " + text);
					recordDestroyed = s.runs == 1;		// its release is observed in a later run
				}
				else event(fmt("ended with %d", e));
			}
			catch ( std::exception& e ) { flushPartial(); event(std::string("failed: ") + e.what()); recordDestroyed = s.runs == 1; }
			event("-- end");
		}
	}
	std::cout.flush(); fflush(stdout);
	flushPartial();
	left = W.opens - W.closes - open;
	now = nullptr;
	return rec;
}

// each run of a session with several of them must look like the first
std::vector<std::string> runsOf(const std::string& rec) {
	std::vector<std::string> r;
	size_t at = 0;
	while ( (at = rec.find("-- run\n", at)) != std::string::npos ) { size_t e = rec.find("-- end\n", at); r.push_back(rec.substr(at, e - at)); at = e; }
	return r;
}
std::string withoutDestroyed(const std::string& s) {
	std::string r; size_t at = 0;
	while ( at < s.size() ) { size_t e = s.find('\n', at); if ( e == std::string::npos ) e = s.size() - 1; if ( s.compare(at, 10, "destroyed ") ) r += s.substr(at, e + 1 - at); at = e + 1; }
	return r;
}

Session program() {
	Session s; s.kind = "program";
	lang::Profile pr;
	pr.size = range(6, 26); pr.maxDepth = range(2, 4);
	pr.throws = draw(3) != 0; pr.finally_ = pr.throws && draw(3) == 0; pr.objects = draw(3) != 0; pr.exits = draw(4) == 0; pr.nativeFail = draw(2);
	pr.failRate = range(20, 200);
	bool again = draw(4) == 0;
	pr.cycles = draw(4) == 3;
	pr.globalsObj = !again && pr.objects && draw(3) == 0;
	pr.ops = draw(3) == 2;
	lang::Program p; lang::Expectation ex;
	lang::generate(p, pr);
	lang::print(p);
	lang::reference(p, pr, ex);
	if ( ex.tooLong ) discard("program runs too long");
	for ( auto& i : ex.items ) if ( i.k == lang::Item::ReadInt || i.k == lang::Item::ReadBool || i.k == lang::Item::WriteInt ) s.answers.push_back({ i.value, i.fail, i.err });
	s.text = p.text;
	if ( again ) {
		s.kind = "repeated program";
		s.runs = range(2, 3);
		size_t at = s.text.find("int Main(");
		at = s.text.find("{\n", at);
		if ( at == std::string::npos ) harnessError("no Main");
		std::string reset;
		for ( int i = 0; i < p.globals; ++i ) reset += fmt("\tg%d = %d;\n", i, i + 1);
		s.text.insert(at + 2, reset);
	}
	return s;
}

Session broken() {
	Session s = program();
	s.runs = 1;
	switch ( draw(6) ) {
		case 0: s.kind = "unknown name"; s.text += "public int broken() {\n\treturn nowhere;\n}\n"; break;
		case 1: s.kind = "missing import"; s.text = "import Nowhere.At.All;\n" + s.text; break;
		case 2: s.kind = "missing file"; s.write = false; break;
		case 3: s.kind = "syntax error"; s.text += "public int broken() {\n\tint x = ;\n\treturn x;\n}\n"; break;
		case 4: s.kind = "unbalanced"; s.text += "public int broken() {\n\treturn 1;\n"; break;
		case 5: s.kind = "unknown type"; s.text += "public Nothing broken() {\n\treturn new Nothing();\n}\npublic object Half extends Nothing {\n}\n"; break;
	}
	return s;
}

Session filesAndConsole() {
	Session s; s.kind = "files";
	std::string b;
	int n = range(1, 8), handles = 0;
	auto guarded = [](const std::string& call, const char* what) { return fmt("\ttry { print(\"#%s \" + %s); } catch { print(\"#%s none\"); }\n", what, call.c_str(), what); };
	for ( int i = 0; i < n; ++i ) {
		switch ( draw(8) ) {
			case 0: case 1: {
				const char* modes[] = { "w", "r", "a" };
				b += fmt("\tint h%d = fopen(\"/simfs/work/data%u\", \"%s\");\n\tprint(\"#open \" + h%d);\n", handles, draw(3), modes[draw(3)], handles);
				++handles;
				break;
			}
			case 2: if ( handles ) b += guarded(fmt("fwrites(h%u, \"%c%c\")", draw(static_cast<uint32_t>(handles)), 'a' + static_cast<int>(draw(26)), 'a' + static_cast<int>(draw(26))), "write"); break;
			case 3: if ( handles ) b += guarded(fmt("freads(h%u, %d)", draw(static_cast<uint32_t>(handles)), range(1, 4)), "read"); break;
			case 4: if ( handles ) b += guarded(fmt("fclose(h%u)", draw(static_cast<uint32_t>(handles))), "close"); break;
			case 5: b += guarded(fmt("%s(%d)", draw(2) ? "feof" : "ftell", range(4, 9)), "probe"); break;
			case 6: b += draw(2) ? "\tcout(\"#c1\");\n" : "\tcerr(\"#c2\");\n"; break;
			case 7: b += "\tendl();\n"; break;
		}
	}
	std::string imports;
	if ( draw(3) == 0 ) {
		imports += "import System.IO.File;\n";
		b += fmt("\tSystem.IO.File f = new System.IO.File(\"/simfs/work/data0\", \"%s\");\n\tprint(\"#file \" + f.isOpen());\n", draw(2) ? "r" : "w");
	}
	if ( draw(4) == 0 ) {
		imports += "import System.Collections.List;\n";
		bool text = draw(2);
		b += text ? "\tList<string> l = new List<string>();\n" : "\tList<int> l = new List<int>();\n";
		for ( uint32_t i = 0, k = draw(3); i < k; ++i ) b += text ? fmt("\tl.push_back(\"t%u\");\n", i) : fmt("\tl.push_back(%u);\n", i + 3);
		b += "\tprint(\"#list \" + l.size());\n\tforeach ( " + std::string(text ? "string" : "int") + " x : l ) { print(\"#item \" + x); }\n";
	}
	int part = static_cast<int>(draw(4));
	if ( part < 2 ) {
		// a file several scripts may import
		imports += fmt("import part%d;\n", part);
		b += fmt("\tPart%d p = new Part%d();\n\tprint(\"#part \" + p.next() + p.next() + one%d());\n", part, part, part);
	}
	std::string end = "\treturn 0;\n";
	switch ( draw(4) ) { case 0: break; case 1: end = "\tif ( argc >= 0 ) { throw 7; }\n\treturn 0;\n"; break; case 2: end = "\tif ( argc >= 0 ) { exit(3); }\n\treturn 0;\n"; break; default: end = "\treturn 5;\n"; }
	s.library = !imports.empty();
	s.text = imports + "public int Main(int argc = 0, string args = \"\") modify throws {\n" + b + end + "}\n";
	return s;
}

void v01() {
	int n = range(2, 5);
	for ( int i = 0; i < n; ++i ) {
		Session s;
		switch ( drawWeighted({ 5, 3, 3 }) ) { case 0: s = program(); break; case 1: s = broken(); break; default: s = filesAndConsole(); }
		if ( i && draw(5) == 0 ) s = sessions[draw(static_cast<uint32_t>(i))];		// the same script again
		else s.path = fmt("/simfs/work/d%u/script%d.os", draw(3), i);
		s.collect = draw(4) != 0;
		sessions.push_back(s);
	}
	for ( auto& s : sessions ) {
		if ( s.write ) putFile(s.path, s.text);
		sim::log("%s: %s, %d run(s)%s", s.path.c_str(), s.kind.c_str(), s.runs, s.collect ? "" : ", stops at the first error");
		logs(s.text);
	}
	// each folder has some of the files scripts may import, each with a content of its own
	for ( int d = 0; d < 3; ++d ) for ( int i = 0; i < 2; ++i ) {
		putDir(fmt("/simfs/work/d%d", d));
		if ( (d + i) % 3 != 2 ) putFile(fmt("/simfs/work/d%d/part%d.os", d, i), fmt("public int gPart = %d;\npublic int one%d() const { return %d; }\npublic object Part%d {\n\tprivate int mN;\n\tpublic void Constructor() modify { mN = 0; }\n\tpublic int next() modify { mN = mN + 1; return mN; }\n}\n", i, i, 10 * d + i, i));
	}
	auto disk = W.files;
	for ( auto& e : disk ) e.second = std::make_shared<Inode>(*e.second);
	for ( auto& s : sessions ) {
		sim::log("%s in a process of its own", s.path.c_str());
		int runs = s.runs; s.runs = 1;
		auto r = runProcess([&]() { install(); std::string t = session(s); putFile("/simfs/record", t); return 0; });
		s.runs = runs;
		if ( r.signal ) violation("crash", s.path + fmt(" ended its process with signal %d", r.signal));
		s.alone = getFile("/simfs/record");
	}
	W.files = disk;
	install();
	std::string before;
	for ( auto& s : sessions ) {
		sim::log("%s, %s", s.path.c_str(), before.empty() ? "first in the process" : ("after " + before).c_str());
		std::string t = session(s);
		S->evalUnits += static_cast<uint64_t>(std::count(t.begin(), t.end(), '\n'));
		note(std::hash<std::string>()(t));
		count(t.find("load failed") != std::string::npos ? "load-failed" : t.find("uncaught") != std::string::npos ? "ended-uncaught" : t.find("\nexited") != std::string::npos ? "ended-by-exit" : "ended-normally");
		count("sessions");
		if ( s.runs > 1 ) {
			auto all = runsOf(t), one = runsOf(s.alone);
			bool uncaught = false;
			for ( size_t i = 0; i < all.size(); ++i ) {
				count("repeated-runs");
				std::string a = uncaught || i ? withoutDestroyed(all[i]) : all[i], b = uncaught || i ? withoutDestroyed(one[0]) : one[0];
				if ( a != b ) violation(i ? "repeated-run-differs" : "differs", fmt("run %zu of %s (%s) did\n", i + 1, s.path.c_str(), s.kind.c_str()) + all[i] + "alone it did\n" + one[0]);
				uncaught = uncaught || a.find("uncaught") != std::string::npos;
			}
		}
		else if ( t != s.alone ) violation("differs", s.path + " (" + s.kind + ") did\n" + t + "alone it did\n" + s.alone);
		if ( left ) violation("leaves-files-open", fmt("%s left %ld files open in its process:\n", s.path.c_str(), left) + t);
		before += (before.empty() ? "" : ", ") + s.kind;
	}
	held();
}

Register r1("V01", v01);

}
