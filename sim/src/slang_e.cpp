// E01-E06: one script, run by the real interpreter in the real program.
#include "lang.h"
int program_main(int argc, const char* argv[]);
using namespace sim;

static void runOne(lang::Profile pr, const char* cls) {
	lang::Program p;
	lang::Expectation ex;
	lang::generate(p, pr);
	lang::print(p);
	lang::reference(p, pr, ex);
	if ( ex.tooLong ) discard("program runs too long");
	logs(p.text);
	for ( auto& it : ex.items ) {
		if ( it.k == lang::Item::May || it.k == lang::Item::Must ) sim::log("expect %s %d", it.k == lang::Item::May ? "may" : "must", it.id);
		else sim::log("expect %d %s fd %d value %d%s", it.k, it.text.c_str(), it.fd, it.value, it.fail ? " fails" : "");
	}
	count("native-calls", ex.nativeCalls);
	count("exceptions-thrown", ex.throws);
	count("objects-thrown", ex.thrownObjects);
	count("exceptions-handled", ex.handled);
	count("finally-blocks", ex.finallies);
	count("objects", ex.objects);
	count("operations-failed", ex.builtins);
	if ( ex.uncaught ) count("uncaught-runs");
	if ( ex.exited ) count("exit-runs");

	static lang::Matcher m;
	m.cls = cls;
	m.attach(ex);
	installStdio(true);
	lang::installDevices(m);
	putFile("/simfs/work/main.os", p.text);
	W.onExit = [&](int st) { sim::log("exit called %d", st); m.finish(st); held(); };
	auto inner = W.onOutput;
	W.onOutput = [&](int fd, const std::string& b) {
		if ( b.find("error(s) during") != std::string::npos ) violation("program-rejected", "a valid program was rejected:\n" + m.partial + b);
		inner(fd, b);
	};
	std::vector<const char*> argv = { "slang" };
	if ( pr.showArgs && draw(2) ) argv.push_back(draw(2) ? "-f" : "--file");
	argv.push_back("/simfs/work/main.os");
	for ( auto& a : pr.args ) argv.push_back(a.c_str());
	argv.push_back(nullptr);
	int st = program_main(static_cast<int>(argv.size()) - 1, argv.data());
	m.finish(st);
	held();
}

static lang::Profile base() {
	lang::Profile pr;
	pr.size = range(8, 44);
	pr.maxDepth = range(2, 5);
	pr.ops = draw(3) == 2;
	pr.drawArgs();
	return pr;
}

static void e01() {
	auto pr = base(); pr.throws = true; pr.nativeFail = draw(4) != 0; pr.objects = draw(2); pr.opThrow = pr.objects && draw(3) == 0; pr.globalsObj = pr.objects && draw(3) == 2;
	pr.failRate = range(20, 150);
	runOne(pr, "");
}
static void e02() {
	auto pr = base(); pr.throws = true; pr.finally_ = true; pr.nativeFail = draw(3) != 0; pr.objects = draw(3) == 0;
	pr.failRate = range(20, 150);
	runOne(pr, "");
}
static void e03() {
	auto pr = base(); pr.objects = true; pr.ops = draw(2); pr.throws = draw(4) != 0; pr.finally_ = pr.throws && draw(3) == 0; pr.nativeFail = draw(3) != 0;
	pr.cycles = draw(4) == 3; pr.globalsObj = draw(3) == 0; pr.failRate = range(20, 150);
	if ( draw(12) == 11 ) { static const int length[] = { 1, 4, 9, 17, 33, 65 }; pr.longChain = length[draw(6)]; count("long-chains"); }
	runOne(pr, "");
}
static void e04() {
	auto pr = base(); pr.objects = draw(3) != 0; pr.throws = true; pr.finally_ = draw(3) == 0; pr.nativeFail = true; pr.shadow = true; pr.dumps = true;
	pr.failRate = range(40, 200);
	if ( draw(40) == 39 ) { static const int often[] = { 20, 70, 140, 270, 540, 1100 }; pr.churn = often[draw(6)]; count("repeated-failures", static_cast<uint64_t>(pr.churn)); }
	runOne(pr, "");
}
static void e05() {
	auto pr = base(); pr.objects = draw(2);
	runOne(pr, "");
}
static void e06() {
	auto pr = base(); pr.exits = true; pr.throws = draw(3) != 0; pr.finally_ = pr.throws && draw(2); pr.objects = draw(2); pr.nativeFail = draw(2);
	pr.globalsObj = draw(4) == 0; pr.cycles = draw(3) == 2;
	runOne(pr, "");
}
static Register r1("E01", e01), r2("E02", e02), r3("E03", e03), r4("E04", e04), r5("E05", e05), r6("E06", e06);
