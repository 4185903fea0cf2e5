// D01-D03: the debugger, driven by generated command sequences at its prompt.
#include "lang.h"
#include <algorithm>
#include <cstring>
int program_main(int argc, const char* argv[]);
using namespace sim;
using Step = lang::Expectation::Step;

namespace {

const std::string FILE_ = "/simfs/work/main.os";
const std::string PROMPT = "slang-dbg> ";

lang::Program p;
std::vector<std::string> args;			// of the program
lang::Expectation ex;
lang::Matcher m;
std::set<int> leafLines;				// lines with exactly one statement and nothing else
struct Dump { int line; std::vector<std::string> names; std::vector<int> kinds; };
std::vector<Dump> dumps;

// what the debugger printed since its last prompt
std::string pendingOut;
std::vector<std::string> reply;
std::string message;					// last line in square brackets
std::string ended;						// how the debugger said the program has ended
bool running = false;					// the program under test is being executed
int runs = 0;
std::function<void()> onEffect;			// after each effect of the program

void build(lang::Profile pr) {
	args = pr.args;
	lang::generate(p, pr);
	lang::print(p);
	lang::reference(p, pr, ex);
	if ( ex.tooLong ) discard("program runs too long");
	logs(p.text);
	for ( auto& s : p.stmts ) {
		if ( s.line <= 0 ) continue;
		bool leaf = s.k != lang::SIf && s.k != lang::SWhile && s.k != lang::SFor && s.k != lang::SForeach && s.k != lang::SSwitch && s.k != lang::SBlock && s.k != lang::STry;
		if ( leaf ) leafLines.insert(s.line);
		if ( s.k == lang::SDump ) { Dump d; d.line = s.line; for ( auto& v : s.vars ) { d.names.push_back(v.first); d.kinds.push_back(v.second.first < 3 ? 0 : v.second.first - 2); } dumps.push_back(d); }
	}
	m.attach(ex);
	putFile(FILE_, p.text);
}

void line(const std::string& l) {
	if ( !l.empty() && l[0] == '#' ) { m.onLine(l); if ( onEffect ) onEffect(); return; }
	sim::log("< %s", l.c_str());
	if ( !l.empty() && l[0] == '[' && l.compare(0, 7, "[Watch]") ) message = l;
	if ( l.compare(0, 17, "[Process finished") == 0 || l.compare(0, 18, "[Exception thrown ") == 0 ) ended = l;
	reply.push_back(l);
}

void output(const std::string& b) {
	pendingOut += b;
	for ( ;; ) {
		if ( pendingOut.compare(0, PROMPT.size(), PROMPT) == 0 ) { pendingOut.erase(0, PROMPT.size()); continue; }
		size_t k = pendingOut.find('\n');
		if ( k == std::string::npos ) return;
		std::string l = pendingOut.substr(0, k);
		pendingOut.erase(0, k + 1);
		line(l);
	}
}

void install() {
	installStdio(true);
	lang::installDevices(m);
	W.logOpens = false;
	auto rd = W.socketRead; auto wr = W.socketWrite;
	W.socketRead = [rd](int fd, void* b, size_t n) { long r = rd(fd, b, n); if ( onEffect ) onEffect(); return r; };
	W.socketWrite = [wr](int fd, const void* b, size_t n) { long r = wr(fd, b, n); if ( onEffect && fd != lang::DEV_DTOR ) onEffect(); return r; };
	W.onOutput = [](int fd, const std::string& b) { if ( fd == 1 ) output(b); else sim::log("stderr %s", quote(b).c_str()); };
}

int debug(std::vector<const char*> extra = {}) {
	std::vector<const char*> argv = { "slang-dbg" };
	for ( auto a : extra ) argv.push_back(a);
	argv.push_back(FILE_.c_str());
	argv.push_back(nullptr);
	return program_main(static_cast<int>(argv.size()) - 1, argv.data());
}

// the program has ended: judges what it did and prepares for another run
void programEnded() {
	running = false;
	int st = ex.status;
	if ( ended.compare(0, 17, "[Process finished") == 0 ) {
		size_t k = ended.find("exit code ");
		if ( k != std::string::npos ) st = atoi(ended.c_str() + k + 10);
		if ( ex.uncaught || ex.exited ) m.fail("wrong-end", "the debugger reported " + ended + " although the program does not end by returning from Main");
	}
	else if ( ended.compare(0, 18, "[Exception thrown ") == 0 ) { if ( !ex.uncaught ) m.fail("wrong-end", "the debugger reported " + ended + " although the program ends otherwise"); }
	else if ( !ex.exited ) m.fail("wrong-end", "the program ended with" + (reply.empty() ? std::string("out a message") : ": " + reply.back()));
	ended.clear();
	m.finish(st);
	m.attach(ex);
}

bool stopped() {
	return !message.empty() && (message.compare(0, 12, "[Breakpoint ") == 0 || message.compare(0, 10, "[Stepping ") == 0 || message.compare(0, 18, "[Exception has bee") == 0 || message.compare(0, 17, "[Caught exception") == 0);
}

std::string name() {
	std::vector<std::string> names = { "g0", "g1", "argc", "args", "this", "p0", "mV", "v0", "v1", "w1", "nothing" };
	for ( auto& d : dumps ) for ( auto& n : d.names ) names.push_back(n);
	return names[draw(static_cast<uint32_t>(names.size()))];
}
int someLine() {
	std::vector<int> l(leafLines.begin(), leafLines.end());
	if ( l.empty() || draw(6) == 0 ) return range(1, static_cast<int>(p.lines.size()) + 3);
	return l[draw(static_cast<uint32_t>(l.size()))];
}

std::string run(const char* c) {
	std::string r = c;
	for ( auto& a : args ) r += (draw(4) ? " " : "  ") + a;
	return r;
}

// a command that does not continue the program and must not change it
std::string inspect() {
	switch ( draw(20) ) {
		case 0: case 1: case 2: return "print " + name();
		case 3: return "bt";
		case 4: return "list";
		case 5: return fmt("break %s %d", FILE_.c_str(), someLine());
		case 6: {
			static const char* ops[] = { "<", "<=", ">", ">=", "==", "!=" };
			static const char* odd[] = { "0", "1", "2", "3", "4", "-1", "2.5", "1.5d", "2.5f", "true", "\"u1\"", "\"u", "'", "g0", "argv", "?" };
			return fmt("break %s %d %s %s %s", FILE_.c_str(), someLine(), name().c_str(), ops[draw(6)], odd[draw(16)]); }
		case 7: return "breakpoints";
		case 8: return fmt("delete %d", range(0, 4));
		case 9: return "watch " + name();
		case 10: return "unwatch " + name();
		case 11: return "watches";
		case 12: return fmt("frame %d", range(0, 5));
		case 13: return draw(2) ? "up" : "down";
		case 14: return draw(2) ? "threads" : fmt("thread %d", range(0, 2));
		case 15: return "help";
		case 16: return draw(2) ? "autolist" : "autowatch";
		case 17: return draw(2) ? "store" : "load";
		case 18: { static const char* odd[] = { "print", "watch", "break", "delete", "frame", "nonsense", "break x y", "delete x", "print g0.x", "watch a b", "thread", "break /simfs/none 3", "unwatch" }; return odd[draw(13)]; }
		default: return "print " + name();
	}
}
// inspection while no program is running
std::string idle() {
	switch ( draw(10) ) {
		case 0: case 1: return fmt("break %s %d", FILE_.c_str(), someLine());
		case 2: return "watch " + name();
		case 3: return "breakpoints";
		case 4: return fmt("delete %d", range(0, 3));
		case 5: return draw(2) ? "store" : "load";
		case 6: return draw(2) ? "help" : "autolist";
		case 7: return "bt";
		case 8: return "print " + name();
		default: { static const char* c[] = { "frame 0", "frame 4", "up", "down", "threads", "thread 0", "list", "threads" }; return c[draw(8)]; }
	}
}

std::string command(const std::string& c) {
	sim::log("> %s", c.c_str());
	note(std::hash<std::string>()(c));
	pendingOut.clear();
	reply.clear();
	message.clear();
	return c + "\n";
}

void config() {
	if ( draw(3) == 0 ) return;
	auto b = [](uint32_t n) { return draw(n) ? "true" : "false"; };
	std::string c = fmt("{ \"autolist\" : %s, \"autowatch\" : %s, \"breakonexceptioncatch\" : %s, \"breakonexceptionthrow\" : %s", b(2), b(2), b(2), b(2));
	c += ", \"breakpoints\" : [";
	int n = range(0, 2);
	for ( int i = 0; i < n; ++i ) c += fmt("%s \"%s %d\"", i ? "," : "", FILE_.c_str(), someLine());
	c += "], \"watches\" : [";
	if ( draw(2) ) c += " \"g0\"";
	c += "] }";
	sim::log("configuration %s", c.c_str());
	putFile(FILE_ + ".dbg", c);
}

lang::Profile base() {
	lang::Profile pr;
	pr.size = range(6, 30); pr.maxDepth = range(2, 4);
	pr.noops = draw(3) == 2;
	pr.drawArgs();
	pr.types = draw(2);
	return pr;
}

// --- D01 -----------------------------------------------------------------------

int prompts = 0, maxRuns = 1, talkative = 30;

bool waitingForProgram = false;			// the last command continued the program

std::string d01Input() {
	if ( ++prompts > 4000 ) violation("prompts-forever", "the debugger asks for commands again and again");
	if ( waitingForProgram ) {
		waitingForProgram = false;
		if ( !stopped() ) { programEnded(); ++runs; }
		else count("stops");
	}
	if ( !running ) {
		if ( draw(3) && prompts < 2 * talkative ) return command(idle());
		if ( runs >= maxRuns ) return command(draw(2) ? "quit" : "q");
		running = true; waitingForProgram = true;
		return command(run(draw(2) ? "run" : "r"));
	}
	if ( prompts > talkative ) { waitingForProgram = true; return command(prompts > talkative + 40 ? "ignore" : draw(2) ? "continue" : "ignore"); }
	if ( draw(2) ) return command(inspect());
	waitingForProgram = true;
	static const char* go[] = { "next", "into", "out", "continue", "run", "n", "i", "o", "c" };
	return command(go[draw(9)]);
}

void d01() {
	auto pr = base();
	pr.throws = draw(3) != 0; pr.finally_ = pr.throws && draw(2); pr.nativeFail = draw(2); pr.objects = draw(2); pr.exits = draw(4) == 0; pr.dumps = true;
	pr.globalsObj = pr.objects && draw(4) == 0; pr.failRate = range(20, 200); pr.ops = draw(3) == 2;
	build(pr);
	config();
	maxRuns = range(1, 2);
	talkative = range(0, 60);
	install();
	W.onInput = d01Input;
	W.onExit = [](int st) { violation("exit", fmt("the debugger called exit(%d)", st)); };
	bool autostart = draw(4) == 0 && args.empty();
	if ( autostart ) { running = true; waitingForProgram = true; }
	static const char* starts[] = { "--run", "-r", "--runandquit" };
	int start = autostart ? static_cast<int>(draw(3)) : 0;
	int st = autostart ? debug({ starts[start] }) : debug();
	sim::log("debugger ended with %d", st);
	if ( start == 2 && running && ended.compare(0, 17, "[Process finished") == 0 ) programEnded();
	if ( running ) violation("lost-program", "the debugger ended while the program was stopped");
	count("prompts", static_cast<uint64_t>(prompts));
	held();
}

// --- D02 -----------------------------------------------------------------------

enum Mode { Break, Over, Into, Out, Free };
Mode mode = Into;
struct Cond { bool set = false; std::string name; int op = 0, value = 0; int kind = 0; std::string text, other; bool swapped = false; };
std::map<int, Cond> bps, savedBps;
bool foreign = false;			// breakpoints in other files were set
std::set<std::string> watches;
long cur = -1, target = -1;
bool stepping = true;			// into and out are used
std::vector<std::pair<std::string, std::string>> asked;		// print commands to issue at this stop
std::string questionFor;
bool settled = false;			// stopped at a known place
bool throwStops = false, catchStops = false;
bool modifying = false; size_t modsDone = 0;
std::map<std::string, Step::Value> changed;		// at this stop
int frame = -1;							// selected at this stop
const Step::Value* outerQuestion = nullptr;

// selects a frame, also step by step from the one selected before
std::string select(int k) {
	int before = frame;
	frame = k;
	if ( before >= 0 && (k == before + 1 || k == before - 1) && draw(2) ) { count("frames-selected-relatively"); return command(k > before ? "down" : "up"); }
	return command(fmt("%s %d", draw(2) ? "frame" : "f", k));
}

bool holds(const Cond& c, const Step& s) {
	if ( !c.set ) return true;
	for ( auto& v : s.vars ) if ( v.first == c.name ) {
		if ( c.kind == 2 ) return (v.text == c.text) == (c.op == 4);
		int l = v.second, r = c.value;
		for ( auto& o : s.vars ) if ( o.first == c.other ) r = o.second;
		if ( c.swapped ) std::swap(l, r);
		switch ( c.op ) { case 0: return l < r; case 1: return l <= r; case 2: return l > r; case 3: return l >= r; case 4: return l == r; default: return l != r; }
	}
	return true;
}

void aim() {
	target = -1;
	if ( mode == Free ) return;
	modsDone = 0; changed.clear();
	int depth = cur >= 0 ? ex.trace[static_cast<size_t>(cur)].depth : 0;
	for ( size_t i = static_cast<size_t>(cur + 1); i < ex.trace.size(); ++i ) {
		auto& s = ex.trace[i];
		bool hit = false;
		if ( s.k == Step::Statement && s.leaf ) {
			if ( mode == Over && s.depth <= depth ) hit = true;
			auto b = bps.find(s.line);
			if ( b != bps.end() && holds(b->second, s) ) hit = true;
		}
		else if ( s.k == Step::Enter ) hit = mode == Into;
		else if ( s.k == Step::Exit ) hit = mode == Out;
		else if ( s.k == Step::Throw ) hit = throwStops;
		else if ( s.k == Step::Catch ) hit = catchStops;
		if ( hit ) { target = static_cast<long>(i); return; }
	}
}

std::string where(long i) {
	if ( i < 0 ) return "nowhere";
	auto& s = ex.trace[static_cast<size_t>(i)];
	return s.k == Step::Statement ? fmt("line %d", s.line) : (s.k == Step::Enter ? "entering " : s.k == Step::Exit ? "leaving " : s.k == Step::Throw ? "an exception thrown in " : "an exception caught in ") + s.name;
}

void checkMissed() {
	if ( target >= 0 && m.hard > ex.trace[static_cast<size_t>(target)].hard )
		violation("missed-stop", "the program went past " + where(target) + " without stopping there; last stop: " + where(cur));
}

int trailingInt(const std::string& t, bool& ok) {
	size_t e = t.find_last_of("0123456789");
	ok = e != std::string::npos;
	if ( !ok ) return 0;
	size_t b = e;
	while ( b > 0 && isdigit(static_cast<unsigned char>(t[b - 1])) ) --b;
	if ( b > 0 && t[b - 1] == '-' ) --b;
	return atoi(t.substr(b, e - b + 1).c_str());
}

// the line shows this value of a variable
bool shows(const std::string& l, int kind, int value, const std::string& text) {
	if ( kind == 2 ) { std::string e = "'" + text + "'"; return l.size() > e.size() && l.compare(l.size() - e.size(), e.size(), e) == 0; }
	bool ok = false; int n = trailingInt(l, ok);
	return ok && n == value;
}

std::string d02Input() {
	if ( static_cast<size_t>(++prompts) > 3000 + 20 * ex.trace.size() * static_cast<size_t>(maxRuns) ) violation("prompts-forever", "the debugger asks for commands again and again");
	if ( waitingForProgram ) {
		waitingForProgram = false;
		settled = false;
		frame = -1;
		asked.clear();
		if ( !stopped() ) {
			if ( target >= 0 ) violation("missed-stop", "the program ended without stopping at " + where(target) + "; last stop: " + where(cur));
			programEnded(); ++runs; cur = -1; mode = Into;
		}
		else {
			count("stops");
			S->evalUnits++;
			if ( message.compare(0, 12, "[Breakpoint ") == 0 ) {
				bool ok; std::string t = message.substr(0, message.find(" reached"));
				size_t k = t.find(" [");			// the condition
				if ( k != std::string::npos ) t = t.substr(0, k);
				int l = trailingInt(t, ok);
				if ( !leafLines.count(l) ) {
					if ( mode != Over ) violation("wrong-stop", fmt("the debugger stopped at line %d, expected ", l) + where(target));
					// a statement with a body: stepping goes on from there
					size_t end = target < 0 ? ex.trace.size() : static_cast<size_t>(target);
					for ( size_t i = static_cast<size_t>(cur + 1); i < end; ++i ) {
						auto& s = ex.trace[i];
						if ( s.k == Step::Statement && !s.leaf && s.line == l && s.hard == m.hard ) { cur = static_cast<long>(i); break; }
					}
				}
				else {
					if ( target < 0 || ex.trace[static_cast<size_t>(target)].k != Step::Statement || ex.trace[static_cast<size_t>(target)].line != l )
						violation("wrong-stop", fmt("the debugger stopped at line %d, expected ", l) + where(target) + "; last stop: " + where(cur));
					settled = true;
				}
			}
			else if ( message.compare(0, 10, "[Stepping ") == 0 ) {
				bool in = message.compare(0, 15, "[Stepping into ") == 0;
				auto want = in ? Step::Enter : Step::Exit;
				// exit leaves the functions it is called from, which may count as stepping out
				bool leaving = !in && target < 0 && mode == Out && ex.exited && m.hard == ex.hard;
				if ( !leaving && (target < 0 || ex.trace[static_cast<size_t>(target)].k != want || message.find(ex.trace[static_cast<size_t>(target)].name + "(") == std::string::npos) )
					violation("wrong-stop", "the debugger stopped with " + message + ", expected " + where(target) + "; last stop: " + where(cur));
				settled = !leaving;
				if ( leaving ) cur = static_cast<long>(ex.trace.size()) - 1;
			}
			else {
				bool caught = message.compare(0, 17, "[Caught exception") == 0;
				if ( !(caught ? catchStops : throwStops) ) violation("wrong-stop", "the debugger stopped with " + message + " although it was not asked to stop there");
				if ( mode == Free ) { waitingForProgram = true; return command("ignore"); }
				auto want = caught ? Step::Catch : Step::Throw;
				if ( target < 0 || ex.trace[static_cast<size_t>(target)].k != want || message.find(ex.trace[static_cast<size_t>(target)].name + "(") == std::string::npos )
					violation("wrong-stop", "the debugger stopped with " + message + ", expected " + where(target) + "; last stop: " + where(cur));
				settled = true;
				count(caught ? "stops-at-catch" : "stops-at-throw");
			}
			if ( settled ) {
				if ( m.hard != ex.trace[static_cast<size_t>(target)].hard ) violation("wrong-stop", fmt("the debugger stopped at the right line, but after %ld effects of the program instead of %ld", m.hard, ex.trace[static_cast<size_t>(target)].hard));
				cur = target;
				auto& s = ex.trace[static_cast<size_t>(cur)];
				for ( auto& v : s.vars ) {
					for ( auto& l : reply ) if ( l.compare(0, 9 + v.first.size(), "[Watch] " + v.first + ":") == 0 ) {
						S->evalUnits++; count("watched-values");
						if ( !shows(l, v.kind, v.second, v.text) ) violation("wrong-value", fmt("at line %d %s is %s, but the debugger shows ", s.line, v.first.c_str(), v.kind == 2 ? v.text.c_str() : fmt("%d", v.second).c_str()) + l);
					}
					asked.emplace_back(v.first, "");
				}
			}
		}
	}
	if ( !questionFor.empty() ) {
		std::string q; q.swap(questionFor);
		auto& s = ex.trace[static_cast<size_t>(cur)];
		for ( auto& v : s.vars ) if ( v.first == q ) {
			S->evalUnits++; count(v.kind == 2 ? "printed-strings" : v.kind == 1 ? "printed-bools" : "printed-values");
			int want = changed.count(q) ? changed[q].value : v.second;
			std::string text = changed.count(q) ? changed[q].text : v.text;
			if ( reply.empty() || !shows(reply.back(), v.kind, want, text) ) violation("wrong-value", fmt("at line %d %s is %s, but the debugger prints ", s.line, q.c_str(), v.kind == 2 ? text.c_str() : fmt("%d", want).c_str()) + (reply.empty() ? "nothing" : quote(reply.back())));
		}
	}
	if ( outerQuestion ) {
		auto v = outerQuestion; outerQuestion = nullptr;
		bool ok = false; int n = reply.empty() ? 0 : trailingInt(reply.back(), ok);
		S->evalUnits++; count("values-of-other-frames");
		if ( !ok || n != v->value ) violation("wrong-value", fmt("at line %d %s of frame %d is %d, but the debugger prints ", ex.trace[static_cast<size_t>(cur)].line, v->name.c_str(), v->frame, v->value) + (reply.empty() ? "nothing" : quote(reply.back())));
	}
	if ( settled && running ) {
		auto& s = ex.trace[static_cast<size_t>(cur)];
		if ( modsDone < s.mods.size() ) {
			auto& v = s.mods[modsDone];
			if ( v.frame >= 0 && frame != v.frame ) return select(v.frame);
			++modsDone;
			count(v.frame < 0 ? "modified" : "modified-in-other-frames"); S->evalUnits++;
			if ( v.frame < 0 ) changed[v.name] = v;
			return command(fmt("modify %s ", v.name.c_str()) + (v.text.empty() ? fmt("%d", v.value) : v.text));
		}
		// the functions that wait for this one
		if ( frame >= 0 && frame < s.depth - 1 && draw(3) ) {
			std::vector<const Step::Value*> vs;
			for ( auto& v : s.outer ) if ( v.frame == frame ) vs.push_back(&v);
			if ( !vs.empty() ) { outerQuestion = vs[draw(static_cast<uint32_t>(vs.size()))]; return command("print " + outerQuestion->name); }
		}
		if ( frame >= 0 && frame != s.depth - 1 ) {
			if ( draw(2) ) return select(s.depth - 1);
			asked.clear();
		}
		if ( !s.outer.empty() && draw(6) == 5 ) return select(s.outer[draw(static_cast<uint32_t>(s.outer.size()))].frame);
	}
	// breakpoints may be changed at any known place
	if ( (settled || !running) && draw(3) == 0 && prompts < talkative ) {
		switch ( draw(modifying ? 2 : 11) ) {
			case 0: case 1: {
				if ( leafLines.empty() ) break;
				std::vector<int> l(leafLines.begin(), leafLines.end());
				int at = l[draw(static_cast<uint32_t>(l.size()))];
				bps[at] = Cond();
				return command(fmt("%s %s %d", draw(2) ? "break" : "b", FILE_.c_str(), at));
			}
			case 2: {
				std::vector<Dump*> d; for ( auto& x : dumps ) if ( !x.names.empty() ) d.push_back(&x);
				if ( d.empty() ) break;
				Dump& x = *d[draw(static_cast<uint32_t>(d.size()))];
				static const char* ops[] = { "<", "<=", ">", ">=", "==", "!=" };
				uint32_t k = draw(static_cast<uint32_t>(x.names.size()));
				std::vector<uint32_t> other; for ( uint32_t i = 0; i < x.kinds.size(); ++i ) if ( x.kinds[i] ) other.push_back(i);
				if ( !other.empty() && draw(2) ) k = other[draw(static_cast<uint32_t>(other.size()))];
				Cond c; c.set = true; c.name = x.names[k]; c.kind = x.kinds[k]; c.op = static_cast<int>(draw(6)); c.value = range(0, 6);
				std::string right = fmt("%d", c.value);
				if ( c.kind ) {
					c.op = 4 + c.op % 2;
					c.value %= 2; right = c.value ? "true" : "false";
					if ( c.kind == 2 ) { c.text = fmt("u%d", range(0, 3)); right = "\"" + c.text + "\""; }
				}
				else if ( draw(4) == 3 ) {
					uint32_t o = draw(static_cast<uint32_t>(x.names.size()));
					if ( x.kinds[o] == 0 ) right = c.other = x.names[o];
				}
				c.swapped = draw(3) == 2;
				bps[x.line] = c;
				count(c.kind == 2 ? "conditions-on-strings" : c.kind == 1 ? "conditions-on-bools" : c.other.empty() ? "conditions" : "conditions-on-two-variables");
				return command(fmt("break %s %d %s %s %s", FILE_.c_str(), x.line, (c.swapped ? right : c.name).c_str(), ops[c.op], (c.swapped ? c.name : right).c_str()));
			}
			case 3: {
				if ( foreign ) break;		// the numbers depend on the order of the files
				int n = range(0, static_cast<int>(bps.size()) + 1);
				if ( n >= 1 && n <= static_cast<int>(bps.size()) ) { auto it = bps.begin(); std::advance(it, n - 1); bps.erase(it); }
				return command(fmt("%s %d", draw(2) ? "delete" : "d", n));
			}
			case 4: {		// a line of another file
				if ( leafLines.empty() ) break;
				std::vector<int> l(leafLines.begin(), leafLines.end());
				foreign = true;
				return command(fmt("break %s %d", draw(2) ? "/simfs/work/other.os" : "/simfs/main.os", l[draw(static_cast<uint32_t>(l.size()))]));
			}
			case 5: savedBps = bps; count("stored"); return command("store");
			case 6: bps = savedBps; return command("load");
			default: {
				std::string n = name();
				if ( draw(3) ) { watches.insert(n); return command("watch " + n); }
				watches.erase(n);
				return command("unwatch " + n);
			}
		}
	}
	if ( !running ) {
		if ( runs >= maxRuns ) return command("quit");
		running = true; waitingForProgram = true;
		mode = Into; cur = -1;
		aim();
		return command(run("run"));
	}
	if ( !asked.empty() && draw(3) ) {
		auto a = asked[draw(static_cast<uint32_t>(asked.size()))];
		questionFor = a.first;
		return command((draw(2) ? "print " : "p ") + a.first);
	}
	if ( settled && draw(4) == 0 && prompts < talkative ) { static const char* look[] = { "bt", "list", "breakpoints", "watches", "threads", "help" }; return command(look[draw(6)]); }
	waitingForProgram = true;
	if ( !settled ) { mode = Over; aim(); return command("next"); }		// between two statements
	if ( modifying && prompts > talkative ) { mode = Break; aim(); return command("continue"); }
	if ( prompts > talkative ) { mode = Free; aim(); return command("ignore"); }
	switch ( stepping ? draw(5) : draw(3) ) {
		case 0: mode = Break; aim(); return command(draw(2) ? "continue" : "c");
		case 1: mode = Over; aim(); return command(draw(2) ? "next" : "n");
		case 2: mode = Break; aim(); return command(draw(2) ? "run" : "continue");
		case 3: mode = Into; aim(); return command(draw(2) ? "into" : "i");
		default: mode = Out; aim(); return command(draw(2) ? "out" : "o");
	}
}

void d02() {
	auto pr = base();
	pr.dumps = true; pr.foreach_ = false; pr.dumpRate = range(4, 16);
	stepping = draw(2);
	pr.shadow = draw(3) == 2;
	if ( !stepping ) { pr.throws = draw(3) != 0; pr.finally_ = pr.throws && draw(2); pr.nativeFail = draw(2); pr.objects = draw(3) == 0; pr.failRate = range(20, 200); }
	if ( pr.throws && draw(3) == 2 ) { throwStops = draw(3) != 2; catchStops = !throwStops || draw(2); pr.nativeFail = false; }
	pr.exits = draw(6) == 0;
	build(pr);
	putFile(FILE_ + ".dbg", fmt("{ \"breakonexceptionthrow\" : %s, \"breakonexceptioncatch\" : %s }", throwStops ? "true" : "false", catchStops ? "true" : "false"));
	maxRuns = range(1, 2);
	talkative = range(0, 120);
	install();
	onEffect = checkMissed;
	W.onInput = d02Input;
	W.onExit = [](int st) { violation("exit", fmt("the debugger called exit(%d)", st)); };
	int st = debug();
	sim::log("debugger ended with %d", st);
	if ( running ) violation("lost-program", "the debugger ended while the program was stopped");
	count("prompts", static_cast<uint64_t>(prompts));
	held();
}

// --- D04 -----------------------------------------------------------------------

void d04() {
	auto pr = base();
	pr.dumps = true; pr.foreach_ = false; pr.mods = true; pr.objects = draw(2); pr.shadow = draw(2);
	stepping = !pr.objects && draw(3) == 2;
	if ( !stepping ) { pr.throws = draw(3) == 2; pr.finally_ = pr.throws && draw(2); pr.nativeFail = draw(2); pr.failRate = range(20, 200); }
	build(pr);
	for ( auto& s : ex.trace ) if ( !s.mods.empty() ) bps[s.line] = Cond();
	if ( bps.empty() ) discard("nothing to modify");
	std::string b;
	for ( auto& x : bps ) b += fmt("%s \"%s %d\"", b.empty() ? "" : ",", FILE_.c_str(), x.first);
	putFile(FILE_ + ".dbg", "{ \"breakonexceptionthrow\" : false, \"breakpoints\" : [" + b + "] }");
	modifying = true;
	maxRuns = range(1, 3);
	talkative = range(0, 60);
	install();
	onEffect = checkMissed;
	W.onInput = d02Input;
	W.onExit = [](int st) { violation("exit", fmt("the debugger called exit(%d)", st)); };
	int st = debug();
	sim::log("debugger ended with %d", st);
	if ( running ) violation("lost-program", "the debugger ended while the program was stopped");
	held();
}

// --- D03 -----------------------------------------------------------------------

int endAt = 0, after = 0;
bool over = false, byQuit = false, remote = false;
std::string lastStop;
int unfinished = 0;		// effects of the statement that is under way

std::string d03Input() {
	if ( over ) {
		if ( byQuit ) violation("asks-after-quit", "the debugger asks for another command after quit");
		if ( ++after > 200 ) violation("spins-at-end-of-input", "the debugger goes on asking for commands although its input has ended");
		return "";
	}
	if ( prompts++ == endAt ) {
		over = true;
		if ( lastStop.compare(0, 12, "[Breakpoint ") == 0 || lastStop.compare(0, 10, "[Stepping ") == 0 || lastStop.find("xception") != std::string::npos ) { count("ended-while-stopped"); S->evalUnits++; }
		// a destructor is not part of the statement that lets it run: that one may be completed
		size_t d = p.text.find("void Destructor()");
		if ( d != std::string::npos ) {
			int line = 1 + static_cast<int>(std::count(p.text.begin(), p.text.begin() + static_cast<long>(d), '\n'));
			if ( lastStop.find(".Destructor(") != std::string::npos || lastStop.find(fmt(" %d reached", line)) != std::string::npos || lastStop.find(fmt(" %d [", line)) != std::string::npos ) unfinished = 20;
		}
		if ( byQuit ) { count("quits"); return command(draw(2) ? "quit" : "q"); }
		count("fault.end-of-input");
		std::string part = draw(3) == 0 ? (remote ? "{\"type\":" : inspect()) : "";		// the last line may be incomplete
		sim::log("> %s(end of input)", part.c_str());
		return part;
	}
	if ( remote ) {
		static const char* cmds[] = { "nothing", "{}", "x { \"" };
		return command(cmds[draw(3)]);
	}
	if ( !stopped() && draw(2) ) return command(draw(3) ? "run" : idle());
	if ( draw(3) == 0 ) return command(inspect());
	static const char* go[] = { "next", "into", "next", "out", "next", "continue", "run", "n", "i", "c", "execute f1" };
	return command(go[draw(10)]);
}

void d03() {
	auto pr = base();
	pr.throws = draw(3) != 0; pr.finally_ = pr.throws && draw(2); pr.nativeFail = draw(2); pr.objects = draw(2); pr.exits = draw(4) == 0; pr.dumps = true;
	pr.globalsObj = pr.objects && draw(4) == 0; pr.failRate = range(20, 200);
	build(pr);
	config();
	remote = draw(8) == 7;
	byQuit = !remote && draw(2);
	endAt = range(0, draw(2) ? 6 : 40);
	install();
	W.onInput = d03Input;
	W.socketRead = [](int fd, void* b, size_t n) -> long { if ( onEffect ) onEffect(); memset(b, 0, n); return static_cast<long>(n); };
	W.socketWrite = [](int fd, const void* b, size_t n) -> long { if ( onEffect && fd != lang::DEV_DTOR ) onEffect(); return static_cast<long>(n); };
	W.onOutput = [](int fd, const std::string& b) {
		if ( fd != 1 ) { sim::log("stderr %s", quote(b).c_str()); return; }
		pendingOut += b;
		for ( ;; ) {
			if ( pendingOut.compare(0, PROMPT.size(), PROMPT) == 0 ) { pendingOut.erase(0, PROMPT.size()); continue; }
			size_t k = pendingOut.find('\n');
			if ( k == std::string::npos ) return;
			std::string l = pendingOut.substr(0, k);
			pendingOut.erase(0, k + 1);
			sim::log("< %s", l.c_str());
			if ( !l.empty() && l[0] == '#' ) { if ( onEffect ) onEffect(); }
			else if ( !l.empty() && l[0] == '[' && l.compare(0, 7, "[Watch]") ) message = lastStop = l;
		}
	};
	onEffect = []() { if ( over && --unfinished < 0 ) violation("runs-on", "the program goes on although the debugger was told to end"); };
	W.onExit = [](int st) { sim::log("exit %d", st); if ( !over ) violation("exit", fmt("the debugger called exit(%d)", st)); held(); };
	bool autostart = !remote && draw(4) == 0;
	std::vector<const char*> args;
	if ( remote ) args.push_back("--remote");
	if ( autostart ) args.push_back("--run");
	int st = debug(args);
	sim::log("debugger ended with %d", st);
	S->evalUnits++;
	if ( !over ) violation("ends-by-itself", fmt("the debugger ended with status %d without being told to", st));
	held();
}

Register r1("D01", d01), r2("D02", d02), r3("D03", d03), r4("D04", d04);

}
