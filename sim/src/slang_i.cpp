// I01: programs made of several files, loaded from a disk that fails. What runs is
// exactly the content of the files; if one of them was not read completely, nothing runs.
#include "world.h"
#include <cerrno>
#include <cstring>
#include <iostream>
int program_main(int argc, const char* argv[]);
using namespace sim;

namespace {

struct Module { std::string path, name, text; std::vector<int> imports, used; int value = 0; };
std::vector<Module> mods;
std::map<std::string, bool> needed;		// path -> read completely
std::string out, err, wanted;
long faultsHit = 0;

std::string filler() {
	int n = 0;
	switch ( draw(5) ) { case 0: break; case 1: n = range(1, 60); break; case 2: n = range(300, 900); break; case 3: n = range(4000, 4200); break; default: n = range(8000, 8300); }
	std::string s;
	while ( static_cast<int>(s.size()) < n ) s += "// " + std::string(static_cast<size_t>(range(1, 70)), 'x') + "\n";
	return s;
}

int total(int m) { int v = mods[static_cast<size_t>(m)].value; for ( int i : mods[static_cast<size_t>(m)].used ) v += total(i); return v; }

void finish(int st) {
	std::cout.flush(); std::cerr.flush(); fflush(nullptr);
	sim::log("status %d, output %s, messages %s", st, quote(out).c_str(), quote(err).c_str());
	size_t at = out.find("run:");
	bool ran = at != std::string::npos;
	S->evalUnits += needed.size() + 1;
	if ( !ran ) {
		if ( !faultsHit ) violation("does-not-start", "the program did not start although every file could be read: " + out + err);
		if ( (st & 0xff) == 0 ) violation("failure-not-reported", "the program did not start but the status is 0: " + out + err);
		if ( out.empty() && err.empty() ) violation("failure-not-reported", "the program did not start and there is no message");
		count("refused");
		held();
	}
	for ( auto& f : needed ) if ( !f.second ) violation("runs-incomplete-program", "the program was started although " + f.first + " was not read to its end; it printed " + quote(out));
	if ( out != wanted ) violation("runs-other-program", "the program printed\n  " + quote(out) + "\nbut its files say\n  " + quote(wanted));
	if ( (st & 0xff) != 0 ) violation("wrong-status", fmt("the program ended with status %d", st));
	count("started");
	held();
}

void i01() {
	int n = range(0, 6);
	bool libs[2] = { false, false };
	for ( int i = 0; i < n; ++i ) {
		Module m; m.value = range(1, 1000);
		int where = static_cast<int>(draw(4));		// 0 beside the script, 1 first library, 2 second library, 3 sub folder
		std::string base = fmt("mod%d", i);
		std::string dir = where == 1 ? "/simfs/liba/" : where == 2 ? "/simfs/libb/" : where == 3 ? "/simfs/work/pack/" : "/simfs/work/";
		if ( where == 1 || where == 2 ) libs[where - 1] = true;
		m.name = where == 3 ? "pack." + base : base;
		bool slang = draw(2);
		m.path = dir + base + (slang ? ".slang" : ".os");
		if ( slang && draw(3) == 0 ) putFile(dir + base + ".os", fmt("public int f%d() { return -5000; }\n", i));	// the older form is not used if both exist
		for ( int k = 0; k < i; ++k ) if ( where != 3 && draw(3) == 0 && (where == 0 || mods[static_cast<size_t>(k)].name.find('.') == std::string::npos) ) { m.imports.push_back(k); if ( draw(3) ) m.used.push_back(k); }
		mods.push_back(m);
	}
	// every module is reachable: the script imports those nobody else imports, and some others
	std::vector<bool> used(static_cast<size_t>(n), false);
	for ( auto& m : mods ) for ( int i : m.imports ) used[static_cast<size_t>(i)] = true;
	int missing = n && draw(10) == 0 ? static_cast<int>(draw(static_cast<uint32_t>(n))) : -1;		// a file that does not exist
	std::string text = filler();
	std::vector<int> direct;
	for ( int i = 0; i < n; ++i ) if ( !used[static_cast<size_t>(i)] || draw(3) == 0 ) { direct.push_back(i); text += "import " + mods[static_cast<size_t>(i)].name + ";\n"; }
	bool std_ = draw(4) == 0;
	if ( std_ ) text += "import System.IO.File;\n";
	text += filler() + "public int Main(int argc = 0, string args = \"\") modify throws {\n\twriteln(\"run:\");\n";
	wanted = "run:\n";
	for ( int i : direct ) if ( draw(3) ) { text += fmt("\twriteln(\"%d=\" + f%d());\n", i, i); wanted += fmt("%d=%d\n", i, total(i)); }
	text += filler() + "\treturn 0;\n}\n";
	if ( draw(3) == 0 ) text += filler();
	for ( int i = 0; i < n; ++i ) {
		Module& m = mods[static_cast<size_t>(i)];
		for ( int k : m.imports ) m.text += "import " + mods[static_cast<size_t>(k)].name + ";\n";
		m.text += filler() + fmt("public int f%d() {\n\treturn %d", i, m.value);
		for ( int k : m.used ) m.text += fmt(" + f%d()", k);
		m.text += ";\n}\n";
		if ( draw(2) ) m.text += filler() + fmt("public int g%d() {\n\treturn 0;\n}\n", i);
		needed[m.path] = false;
		if ( i == missing ) { W.files.erase(m.path.substr(0, m.path.rfind('.')) + ".os"); ++faultsHit; sim::log("%s does not exist", m.path.c_str()); count("missing-file"); continue; }
		putFile(m.path, m.text);
		sim::log("%s (%zu bytes): imports%s", m.path.c_str(), m.text.size(), [&] { std::string s; for ( int k : m.imports ) s += " " + mods[static_cast<size_t>(k)].name; return s; }().c_str());
	}
	std::string mainPath = std::string("/simfs/work/main") + (draw(2) ? ".os" : ".slang");
	putFile(mainPath, text);
	needed[mainPath] = false;
	if ( std_ ) needed["/simfs/lib/System/IO/File.os"] = false;
	sim::log("%s: %zu bytes", mainPath.c_str(), text.size());
	bool f = draw(4) != 0;
	W.faults.readShort = f && draw(3) ? static_cast<uint32_t>(range(50, 900)) : 0;
	uint32_t mode = f ? draw(4) : 0;		// 1 open failures, 2 read errors, 3 both
	W.faults.openFail = mode & 1 ? static_cast<uint32_t>(range(5, 120)) : 0;
	W.faults.readFail = mode & 2 ? static_cast<uint32_t>(range(5, 200)) : 0;
	W.onOpenFault = [](const std::string& p) { ++faultsHit; sim::log("  ! %s cannot be opened", p.c_str()); };
	W.onRead = [](const std::string& path, long r, bool atEnd) {
		if ( r < 0 ) { ++faultsHit; sim::log("  ! reading %s fails", path.c_str()); return; }
		auto it = needed.find(path);
		if ( it != needed.end() && atEnd ) it->second = true;
		note(mix(std::hash<std::string>()(path), static_cast<uint64_t>(r)));
	};
	W.onOutput = [](int fd, const std::string& b) {
		(fd == 1 ? out : err) += b;
	};
	W.onExit = finish;
	W.logOpens = false;
	W.faultsOn = true;
	installStdio(false);
	std::vector<const char*> argv = { "slang" };
	if ( std_ ) { argv.push_back("-l"); argv.push_back("/simfs/lib"); }
	argv.push_back("-l"); argv.push_back("/simfs/liba");
	argv.push_back("-l"); argv.push_back("/simfs/libb");
	argv.push_back(mainPath.c_str());
	argv.push_back(nullptr);
	finish(program_main(static_cast<int>(argv.size()) - 1, argv.data()));
}

Register r1("I01", i01);

}
