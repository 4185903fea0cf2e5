// F01-F03: scripts that read and write files through native handles and file
// objects; every result is compared with a model of the files as it appears.
#include "lang.h"
#include <cstring>
#include <cmath>
int program_main(int argc, const char* argv[]);
using namespace sim;

namespace {

enum Kind { Open, Close, RInt, RBool, RDouble, RFloat, RStr, RLine, RChar, WInt, WBool, WDouble, WFloat, WStr, WPuts, WPutc, WCopy, Flush, Seek, Rewind, Tell, Clear, Eof, Size, Churn };
enum { NATIVE = 4, SLOTS = 6, FILES = 5 };

struct Op {
	Kind k; int slot = 0;
	int file = -1; std::string mode;
	long n = 0; int whence = 0;
	std::string bytes;			// what a write stores
	int sval = -1;				// string variable filled (RStr/RLine) or written (WCopy)
	std::string bad;			// non-empty: the operation uses this handle expression, which is not open
	std::string text;
};

struct Slot {
	bool open = false, wild = false, rd = false, wr = false, app = false;
	bool failed = false;		// the stream's error state may be set
	int file = -1;
	long handle = 0;
	std::set<size_t> pos;
};
struct FileM { std::string path, model, seen; bool preset = false; };

std::string PROP;
std::vector<Op> ops;
Slot slots[SLOTS];
FileM files[FILES];
std::string svals[2];
bool svalKnown[2];
size_t current;				// op whose record is expected next
std::string pending;
long errorsBefore;
bool faulty;
bool reachedEnd;
std::string complaints;

bool isObj(int s) { return s >= NATIVE; }
std::string var(int s) { return fmt(isObj(s) ? "o%d" : "h%d", s); }

void deviation(const char* owner, const std::string& cls, const std::string& msg) {
	if ( PROP == owner ) violation(cls, msg);
	sim::log("deviation that belongs to %s: %s: %s", owner, cls.c_str(), msg.c_str());
	count("foreign-deviation");
	held();
}

// --- generation --------------------------------------------------------------

struct Gen {
	struct G { bool open = false, rd = false, wr = false, app = false, used = false; int file = -1; size_t pos = 0; char last = 0; } g[SLOTS];
	size_t sizes[FILES];
	std::string body;
	bool alphabet = false, bulky = false;
	bool sset[2] = { false, false };

	char letter(int file) {
		if ( alphabet ) return static_cast<char>('a' + file * 5 + static_cast<int>(draw(5)));
		uint32_t r = draw(12);
		if ( r == 0 ) return '\n';
		if ( r == 1 ) return '\0';
		if ( r == 2 ) return static_cast<char>(0x80 + draw(0x80));
		return static_cast<char>('a' + draw(26));
	}
	std::string much(int file) { return alphabet ? bulk(static_cast<char>('a' + file * 5), 5) : bulk(); }
	std::string content(int file, int n) { std::string s; for ( int i = 0; i < n; ++i ) s += letter(file); return s; }
	std::string literal(const std::string& s) {
		std::string r; bool q = false;
		for ( char c : s ) {
			if ( isalnum(static_cast<unsigned char>(c)) ) { if ( !q ) { r += r.empty() ? "\"" : " + \""; q = true; } r += c; }
			else { if ( q ) { r += "\""; q = false; } if ( r.empty() ) r = "\"\""; r += fmt(" + ascii(%d)", static_cast<unsigned char>(c)); }
		}
		if ( q ) r += "\"";
		return r.empty() ? "\"\"" : r;
	}
	int intValue(int file) {
		if ( alphabet ) { char b[4]; for ( char& c : b ) c = letter(file); int v; memcpy(&v, b, 4); return v; }
		switch ( draw(4) ) { case 0: return static_cast<int>(draw(10)); case 1: return -static_cast<int>(draw(1000)); case 2: return static_cast<int>(draw(0x7fffffff)); default: return -static_cast<int>(draw(0x7fffffff)); }
	}
	bool busy(int file, bool write) {
		for ( auto& x : g ) if ( x.open && x.file == file && (write || x.wr) ) return true;
		return false;
	}
	void put(Op o) {
		size_t k = ops.size();
		std::string t = o.text;
		body += fmt("\ttry { %s } catch { write(\"#%zu:!\"); }\n\twriteln(\"\"); writeln(\"@%zu\");\n", t.c_str(), k, k);
		ops.push_back(o);
	}
	std::string out(const std::string& e) { return fmt("write(\"#%zu:\" + ", ops.size()) + e + ");"; }
	std::string done(const std::string& e) { return e + fmt("; write(\"#%zu:.\");", ops.size()); }
	std::string told(int s, const std::string& h) { return isObj(s) ? h + ".isEOF()" : "feof(" + h + ") + \"|\" + ferror(" + h + ")"; }

	void open(int s) {
		static const char* modes[] = { "r", "w", "a", "r+", "w+", "a+" };
		std::vector<uint32_t> wts = PROP == "F02" ? std::vector<uint32_t>{ 2, 6, 4, 3, 3, 2 } : std::vector<uint32_t>{ 8, 4, 1, 2, 2, 1 };
		Op o; o.k = Open; o.slot = s;
		o.mode = modes[drawWeighted(wts)];
		o.file = static_cast<int>(draw(FILES));
		bool w = o.mode != "r";
		if ( busy(o.file, w) ) return;
		std::string p = files[o.file].path;
		if ( isObj(s) ) o.text = out(fmt("%s.open(\"%s\", \"%s\")", var(s).c_str(), p.c_str(), o.mode.c_str()));
		else o.text = fmt("%s = 0; %s = fopen(\"%s\", \"%s\"); ", var(s).c_str(), var(s).c_str(), p.c_str(), o.mode.c_str()) + out(var(s));
		put(o);
		auto& x = g[s];
		bool fails = sizes[o.file] == SIZE_MAX && o.mode[0] == 'r';
		x.open = !fails; x.file = o.file; x.used = true; x.last = 0;
		x.rd = o.mode != "w" && o.mode != "a"; x.wr = w; x.app = o.mode[0] == 'a';
		if ( fails ) return;
		if ( o.mode[0] == 'w' || sizes[o.file] == SIZE_MAX ) sizes[o.file] = 0;
		x.pos = 0;
		if ( x.app && x.rd ) seekTo(s, 0);
	}
	void seekTo(int s, size_t target) {
		auto& x = g[s];
		Op o; o.k = Seek; o.slot = s; o.whence = 0; o.n = static_cast<long>(target);
		if ( isObj(s) ) o.text = out(fmt("%s.seek(%zu)", var(s).c_str(), target));
		else {
			// relative seeks on update streams are left out: glibc's cookie streams get them wrong
			uint32_t w = x.rd && x.wr ? 0 : draw(3);
			if ( w == 1 ) { o.whence = 1; o.n = static_cast<long>(target) - static_cast<long>(x.pos); }
			if ( w == 2 ) { o.whence = 2; o.n = static_cast<long>(target) - static_cast<long>(sizes[x.file]); }
			static const char* names[] = { "SEEK_SET", "SEEK_CUR", "SEEK_END" };
			o.text = out(fmt("fseek(%s, %ld, %s)", var(s).c_str(), o.n, names[o.whence]));
		}
		x.pos = target; x.last = 0;
		put(o);
	}
	// the kinds of operation that need no open file of a certain kind
	void operation(int s, const std::string& badHandle) {
		auto& x = g[s];
		bool obj = isObj(s);
		bool bad = !badHandle.empty();
		std::string h = bad ? badHandle : var(s);
		bool rd = x.rd, wr = x.wr;
		if ( bad ) { rd = draw(2); wr = !rd; }
		else if ( draw(25) == 0 ) { std::swap(rd, wr); if ( !rd && !wr ) rd = true; }	// sometimes against the open mode
		size_t size = bad ? 0 : sizes[x.file];
		int file = bad ? static_cast<int>(draw(FILES)) : x.file;
		bool write = wr && (!rd || draw(2));
		std::vector<uint32_t> wts(24, 0);
		wts[Close] = 8; wts[Seek] = wts[Rewind] = 3; wts[Eof] = 1;
		if ( !obj ) { wts[Tell] = rd && wr ? 0 : 1; wts[Clear] = 1; }
		if ( bad ) wts[Close] = 3;
		if ( rd && !write ) {
			wts[RStr] = 12; wts[RInt] = 10; wts[RBool] = 4; wts[RDouble] = 4; wts[RFloat] = 4;
			if ( !obj ) { wts[RLine] = 6; wts[RChar] = 6; } else wts[Size] = 1;
			wts[Close] = 5;
		}
		if ( write ) {
			wts[WInt] = 8; wts[WStr] = 10; wts[WCopy] = 2;
			if ( !alphabet ) { wts[WBool] = 4; wts[WDouble] = 4; wts[WFloat] = 4; }
			if ( !obj ) { wts[WPuts] = 4; wts[WPutc] = 4; wts[Flush] = 5; }
		}
		Op o; o.k = static_cast<Kind>(drawWeighted(wts)); o.slot = s; o.bad = badHandle;
		bool isRead = o.k >= RInt && o.k <= RChar, isWrite = o.k >= WInt && o.k <= WCopy;
		if ( !bad && x.rd && x.wr && ((isRead && x.last == 'w') || (isWrite && x.last == 'r')) ) seekTo(s, draw(3) ? std::min(x.pos, size) : draw(static_cast<uint32_t>(size + 1)));
		const char* c = h.c_str();
		auto rd_ = [&](const char* nat, const char* meth, size_t len) {
			o.n = static_cast<long>(len);
			if ( obj ) o.text = out(fmt("%s.%s()", c, meth) + " + \"|\" + " + told(s, h));
			else o.text = out(fmt("%s(%s)", nat, c) + " + \"|\" + " + told(s, h));
		};
		auto wr_ = [&](const char* nat, const std::string& val, const std::string& bytes) {
			o.bytes = bytes;
			o.text = obj ? out(fmt("%s.write(%s)", c, val.c_str())) : out(fmt("%s(%s, %s)", nat, c, val.c_str()));
		};
		switch ( o.k ) {
			case Close: o.text = obj ? out(h + ".close()") : out("fclose(" + h + ")"); break;
			case RInt: rd_("freadi", "readInt", 4); break;
			case RBool: rd_("freadb", "readBool", 1); break;
			case RDouble: rd_("freadd", "readDouble", 8); break;
			case RFloat: rd_("freadf", "readFloat", 4); break;
			case RStr: case RLine: {
				o.sval = static_cast<int>(draw(2)); sset[o.sval] = true;
				uint32_t w = draw(8);
				o.n = w == 0 && !bad ? -1 : w == 1 ? range(900, 2600) : w <= 4 && bulky ? range(3000, 17000) : range(1, 9);
				if ( o.k == RLine ) { if ( o.n < 0 ) o.n = range(1000, 2600); else ++o.n; }
				std::string call = o.k == RLine ? fmt("fgets(%s, %ld)", c, o.n) : obj ? (o.n == 1 && draw(2) ? fmt("%s.readChar()", c) : fmt("%s.readString(%ld)", c, o.n)) : fmt("freads(%s, %ld)", c, o.n);
				o.text = fmt("s%d = ", o.sval) + call + "; " + out(fmt("s%d + \"|\" + ", o.sval) + told(s, h));
				break;
			}
			case RChar: o.n = 1; o.text = out(fmt("fgetc(%s)", c)); break;
			case WInt: { int v = intValue(file); char b[4]; memcpy(b, &v, 4); wr_("fwritei", fmt("%d", v), std::string(b, 4)); break; }
			case WBool: { bool v = draw(2); wr_("fwriteb", v ? "true" : "false", std::string(1, static_cast<char>(v))); break; }
			case WDouble: { double v = range(-4000, 4000) / 4.0; char b[8]; memcpy(b, &v, 8); wr_("fwrited", fmt("%.2fd", v), std::string(b, 8)); break; }
			case WFloat: { float v = static_cast<float>(range(-4000, 4000)) / 4.0f; char b[4]; memcpy(b, &v, 4); wr_("fwritef", fmt("%.2ff", static_cast<double>(v)), std::string(b, 4)); break; }
			case WStr: { auto v = bulky && draw(3) == 2 ? much(file) : content(file, draw(20) == 0 ? range(50, 120) : range(0, 8)); wr_("fwrites", literal(v), v); break; }
			case WPuts: { auto v = bulky && draw(3) == 2 ? much(file) : content(file, range(0, 8)); o.bytes = v; o.text = out(fmt("fputs(%s, %s)", literal(v).c_str(), c)); break; }
			case WPutc: { char v = letter(file); o.bytes = std::string(1, v); o.text = out(fmt("fputc(%d, %s)", static_cast<unsigned char>(v), c)); break; }
			case WCopy: {
				o.sval = static_cast<int>(draw(2));
				if ( !sset[o.sval] || alphabet ) return;
				o.text = obj ? out(fmt("%s.write(s%d)", c, o.sval)) : out(fmt("fwrites(%s, s%d)", c, o.sval));
				break;
			}
			case Flush: o.text = out("fflush(" + h + ")"); break;
			case Seek: {
				if ( !bad ) { seekTo(s, draw(static_cast<uint32_t>(size + 1)) + (x.wr && !x.rd && !alphabet && draw(6) == 0 ? draw(6) : 0)); return; }
				o.text = obj ? out(h + ".seek(1)") : out("fseek(" + h + ", 1)");
				break;
			}
			case Rewind: o.text = obj ? out(h + ".rewind()") : done("rewind(" + h + ")"); break;
			case Tell: o.text = out("ftell(" + h + ")"); break;
			case Clear: o.text = done("clearerr(" + h + ")"); break;
			case Eof: o.text = obj ? out(h + ".isEOF()") : out((draw(2) ? "feof(" : "ferror(") + h + ")"); break;
			case Size: o.text = out(h + ".getSize()"); break;
			default: return;
		}
		put(o);
		if ( bad ) return;
		if ( o.k == Close ) { x.open = false; return; }
		if ( o.k == Rewind ) { x.pos = 0; x.last = 0; }
		if ( isRead && x.rd ) { x.last = 'r'; size_t n = o.n < 0 ? size : static_cast<size_t>(o.n); x.pos = std::min(size, x.pos + n); }
		if ( isWrite && x.wr ) {
			x.last = 'w';
			size_t n = o.k == WCopy ? 4 : o.bytes.size();
			if ( x.app ) x.pos = size;
			x.pos += n;
			sizes[x.file] = std::max(size, x.pos);
		}
	}
	// opens and closes a file many times while others stay open
	void churn() {
		Op o; o.k = Churn; o.n = range(20, 300);
		int file = 0; while ( file < FILES && (sizes[file] == SIZE_MAX || busy(file, false)) ) ++file;
		if ( file == FILES ) return;
		std::string same;
		for ( int s = 0; s < NATIVE; ++s ) if ( g[s].open ) same += fmt("if ( h == %s ) { c = c + 1; } ", var(s).c_str());
		o.text = fmt("c = 0; for ( int k = 0; k < %ld; k++ ) { h = 0; try { h = fopen(\"%s\", \"r\"); if ( h != 0 ) { %sfclose(h); } } catch { } } ", o.n, files[file].path.c_str(), same.c_str()) + out("c");
		put(o);
	}
	void program(int count_) {
		for ( int i = 0; i < count_; ++i ) {
			if ( bulky && draw(12) == 11 ) churn();
			int s = static_cast<int>(draw(SLOTS));
			auto& x = g[s];
			if ( PROP == "F03" ? draw(4) == 0 : draw(30) == 0 ) {
				std::string b;
				if ( !x.open && (x.used || isObj(s)) ) b = var(s);
				else if ( !isObj(s) ) { static const char* never[] = { "0", "-1", "47110", "-2000000000", "40" }; b = never[draw(bulky ? 4 : 5)]; }
				if ( !b.empty() ) { operation(s, b); continue; }
			}
			if ( x.open ) operation(s, "");
			else open(s);
		}
		for ( int s = 0; s < SLOTS; ++s ) if ( g[s].open && draw(4) ) {
			Op o; o.k = Close; o.slot = s;
			o.text = isObj(s) ? out(var(s) + ".close()") : out("fclose(" + var(s) + ")");
			g[s].open = false;
			put(o);
		}
	}
	std::string text() {
		std::string t = "import System.IO.File;\n\npublic void Main( int argc = 0, string args = \"\" ) modify {\n";
		for ( int s = 0; s < SLOTS; ++s ) t += isObj(s) ? fmt("\tSystem.IO.File o%d = new System.IO.File();\n", s) : fmt("\tint h%d = 0;\n", s);
		t += "\tstring s0 = \"\"; string s1 = \"\"; int h = 0; int c = 0;\n";
		return t + body + "\twriteln(\"@end\");\n}\n";
	}
};

// --- oracle --------------------------------------------------------------------

std::string opName(const Op& o) { return fmt("operation %zu: %s", current, o.text.c_str()); }
std::string& inode(int f) { static std::string none; auto it = W.files.find(normalise(files[f].path)); return it == W.files.end() ? none : it->second->data; }
bool exists(int f) { return W.files.count(normalise(files[f].path)) != 0; }

void checkContent(const Op& o, int f, const char* when) {
	++S->evalUnits;
	if ( inode(f) != files[f].model )
		deviation("F02", "content-differs", opName(o) + fmt("\nevery write to %s was reported as successful and %s succeeded, but the file contains\n  %s\ninstead of\n  %s",
			files[f].path.c_str(), when, quote(inode(f)).c_str(), quote(files[f].model).c_str()));
}

bool niceDouble(double d) { return std::isfinite(d) && std::fabs(d) <= 1000.0 && d * 4.0 == std::floor(d * 4.0) && !(d == 0.0 && std::signbit(d)); }

// does the printed value stand for these bytes?
bool valueMatches(Kind k, const std::string& bytes, const std::string& text) {
	if ( k == RStr || k == RLine ) return text == bytes;
	if ( k == RChar ) return text == fmt("%d", static_cast<unsigned char>(bytes[0]));
	if ( k == RInt ) { int v; memcpy(&v, bytes.data(), 4); return text == fmt("%d", v); }
	if ( k == RBool ) { unsigned char c = static_cast<unsigned char>(bytes[0]); return c > 1 || text == (c ? "1" : "0") || text == (c ? "true" : "false"); }
	if ( k == RDouble ) { double v; memcpy(&v, bytes.data(), 8); return !niceDouble(v) || strtod(text.c_str(), nullptr) == v; }
	float v; memcpy(&v, bytes.data(), 4);
	return !niceDouble(v) || strtof(text.c_str(), nullptr) == v;
}

size_t lineLength(const std::string& d, size_t p, size_t n) {
	size_t k = 0;
	while ( k < n && p + k < d.size() ) { ++k; if ( d[p + k - 1] == '\n' ) break; }
	return k;
}

void checkRead(const Op& o, Slot& x, bool thrown, const std::string& value, bool told, bool errors) {
	const std::string& d = files[x.file].model;
	if ( PROP == "F03" && !thrown && (o.k == RStr || o.k == RLine) ) {
		++S->evalUnits;
		for ( char c : value ) if ( c && (c < 'a' + x.file * 5 || c >= 'a' + x.file * 5 + 5) )
			deviation("F03", "reads-another-file", opName(o) + fmt("\nreturned %s, which is not content of %s", quote(value).c_str(), files[x.file].path.c_str()));
	}
	if ( !x.rd ) {
		if ( errors ) x.wild = true;
		if ( !thrown && !told && !(o.k == RChar && value == "-1") && !(o.n < 0 && value.empty()) )
			deviation("F01", "unreadable-but-read", opName(o) + fmt("\nthe file is not open for reading, yet the script got %s and was not told", quote(value).c_str()));
		return;
	}
	if ( x.wild ) return;
	++S->evalUnits;
	std::set<size_t> next;
	size_t covered = 0;
	auto anywhere = [&](size_t from, size_t to) { for ( size_t q = std::max(from, covered); q <= to; ++q ) next.insert(q); covered = std::max(covered, to); };
	bool couldBeShort = false;
	std::string expected;
	for ( size_t p : x.pos ) {
		size_t avail = p < d.size() ? d.size() - p : 0;
		size_t want = o.n < 0 ? avail : o.k == RLine ? static_cast<size_t>(o.n - 1) : static_cast<size_t>(o.n);
		size_t full = o.k == RLine ? lineLength(d, p, want) : std::min(avail, want);
		bool complete = o.k == RLine ? (full == want || (full && d[p + full - 1] == '\n')) : avail >= want;
		if ( !complete ) couldBeShort = true;
		if ( thrown ) { if ( errors || !complete || (o.n < 0 && x.failed) ) anywhere(p, p + full); continue; }
		std::string bytes = p < d.size() ? d.substr(p, full) : "";
		if ( expected.empty() ) expected = fmt("%s at offset %zu", quote(bytes).c_str(), p);
		bool isString = o.k == RStr || o.k == RLine;
		if ( complete ) {
			if ( valueMatches(o.k, bytes, value) ) next.insert(p + full);
			else if ( errors && (told || (o.k == RChar && value == "-1")) ) anywhere(p, p + full);
		} else {
			bool t = told || (o.k == RChar && value == "-1");
			if ( t && (!isString || value == bytes) ) next.insert(p + full);
			else if ( t && errors ) anywhere(p, p + full);
		}
	}
	if ( next.empty() ) {
		if ( thrown ) deviation("F01", "read-fails-without-cause", opName(o) + "\nfailed although the data is there and no error was injected");
		deviation("F01", couldBeShort ? "not-told" : "wrong-data", opName(o) + fmt("\nreturned %s%s; the file has %s", quote(value).c_str(), told ? " with the end-of-file or error state set" : " without any sign of failure", expected.c_str()));
	}
	x.pos = next;
	if ( next.size() > 3000 ) x.wild = true;		// too many possibilities to follow
}

void endOfFileUse(Slot& x) { x.open = false; x.pos.clear(); if ( x.wild || x.wr ) files[x.file].model = inode(x.file); x.wild = false; }

void record(const Op& o, const std::string& payload) {
	Slot& x = slots[o.slot];
	bool thrown = payload == "!";
	bool errors = W.errors != errorsBefore;
	int target = o.bad.empty() && x.open ? x.file : o.k == Open ? o.file : -1;
	// no other file changes
	for ( int f = 0; f < FILES; ++f ) {
		std::string now = exists(f) ? inode(f) : std::string("\1missing");
		if ( f != target && now != files[f].seen )
			deviation("F03", "touches-another-file", opName(o) + fmt("\nchanged %s from %s to %s", files[f].path.c_str(), quote(files[f].seen).c_str(), quote(now).c_str()));
		if ( PROP == "F03" && exists(f) ) for ( char c : now ) if ( c && (c < 'a' + f * 5 || c >= 'a' + f * 5 + 5) )
			deviation("F03", "writes-to-another-file", opName(o) + fmt("\n%s now contains foreign data: %s", files[f].path.c_str(), quote(now).c_str()));
		files[f].seen = now;
	}
	note(mix(static_cast<uint64_t>(o.k) * 64 + static_cast<uint64_t>(o.slot) * 4 + thrown * 2 + errors, static_cast<uint64_t>(target + 7)));

	if ( o.k == Churn ) {
		++S->evalUnits; count("files-reopened", static_cast<uint64_t>(o.n));
		if ( payload != "0" ) deviation("F03", "handle-not-distinct", opName(o) + fmt("\ngave a handle which is still in use %s times", payload.c_str()));
		return;
	}
	if ( o.k == Open ) x.failed = false;
	if ( errors ) x.failed = true;
	bool obj = isObj(o.slot);
	bool usable = o.bad.empty() && x.open;
	if ( o.k != Open && !usable ) {
		if ( obj && (o.k == Close || o.k == Size || o.k == Open) ) return;
		++S->evalUnits;
		count("bad-handle-uses");
		if ( !thrown ) deviation("F03", "bad-handle-accepted", opName(o) + fmt("\nthe handle is not open, but the operation gave %s instead of raising an exception", quote(payload).c_str()));
		return;
	}

	std::string value = payload;
	bool told = false;
	if ( o.k >= RInt && o.k <= RLine && !thrown ) {
		for ( int i = 0; i < (obj ? 1 : 2); ++i ) {
			size_t b = value.rfind('|');
			if ( b == std::string::npos ) harnessError("cannot parse the record " + quote(payload));
			if ( value.substr(b + 1) != "0" && value.substr(b + 1) != "false" ) told = true;
			value = value.substr(0, b);
		}
	}
	if ( o.sval >= 0 && (o.k == RStr || o.k == RLine) ) {
		// a failing read leaves the variable alone
		if ( !thrown ) { svals[o.sval] = value; svalKnown[o.sval] = true; }
	}
	switch ( o.k ) {
		case Open: {
			bool ok = !thrown && (obj ? payload == "1" || payload == "true" : payload != "0");
			int f = o.file;
			bool present = files[f].preset;
			bool shouldFail = !present && o.mode[0] == 'r';
			if ( obj && thrown ) {			// the file is open or not; the position could not be determined
				if ( !errors ) deviation("F03", "open-throws", opName(o) + "\nraised an exception although nothing failed");
				x.open = true; x.wild = true; x.file = f; x.rd = x.wr = true;
				if ( W.fds.empty() ) x.open = false;
				files[f].preset = exists(f); files[f].model = inode(f);
				if ( x.open ) { count("half-open-runs"); held(); }
				return;
			}
			++S->evalUnits;
			if ( ok && shouldFail ) deviation("F03", "open-of-missing-file", opName(o) + fmt("\ngave %s although %s does not exist", payload.c_str(), files[f].path.c_str()));
			if ( !ok && !shouldFail && !errors ) deviation("F03", "open-fails-without-cause", opName(o) + "\nfailed although nothing prevents it");
			if ( !ok ) { x.open = false; files[f].preset = exists(f); files[f].model = inode(f); return; }
			if ( !obj ) {
				x.handle = atol(payload.c_str());
				for ( int i = 0; i < NATIVE; ++i ) if ( i != o.slot && slots[i].open && slots[i].handle == x.handle )
					deviation("F03", "handle-not-distinct", opName(o) + fmt("\ngave handle %ld, which is still in use for %s", x.handle, files[slots[i].file].path.c_str()));
			}
			x.open = true; x.wild = false; x.file = f;
			x.rd = o.mode != "w" && o.mode != "a"; x.wr = o.mode != "r"; x.app = o.mode[0] == 'a';
			files[f].preset = true;
			files[f].model = inode(f);
			if ( o.mode[0] == 'w' && !inode(f).empty() ) deviation("F02", "not-truncated", opName(o));
			x.pos.clear();
			if ( x.app && !obj ) for ( size_t p = 0; p <= files[f].model.size(); ++p ) x.pos.insert(p);
			else x.pos.insert(0);
			return;
		}
		case Close: {
			bool ok = !thrown && (obj ? payload == "1" || payload == "true" : payload == "0");
			if ( ok && x.wr && !x.wild ) checkContent(o, x.file, "closing it");
			if ( !ok && !errors && !x.wild ) deviation("F02", "close-fails-without-cause", opName(o) + "\nfailed although nothing prevents it");
			if ( !ok ) count("failed-closes");
			endOfFileUse(x);
			return;
		}
		case RInt: case RBool: case RDouble: case RFloat: case RStr: case RLine: case RChar:
			checkRead(o, x, thrown, value, told, errors);
			if ( x.wr && thrown ) x.wild = true;
			return;
		case WInt: case WBool: case WDouble: case WFloat: case WStr: case WPuts: case WPutc: case WCopy: {
			bool ok = !thrown;
			if ( ok ) {
				if ( obj ) ok = payload == "1" || payload == "true";
				else if ( o.k == WInt || o.k == WBool || o.k == WDouble || o.k == WFloat ) ok = payload == "1";
				else ok = payload[0] != '-';
			}
			std::string bytes = o.bytes;
			if ( o.k == WCopy ) bytes = svals[o.sval];
			if ( !x.wr ) {
				x.failed = true;
				if ( ok && !bytes.empty() ) deviation("F02", "write-to-readonly", opName(o) + fmt("\nreported success (%s) for a file that is not open for writing", payload.c_str()));
				return;
			}
			if ( x.wild ) return;
			if ( !ok ) {
				if ( !errors ) deviation("F02", "write-fails-without-cause", opName(o) + fmt("\ngave %s although nothing prevents it", quote(payload).c_str()));
				x.wild = true; count("failed-writes");
				return;
			}
			++S->evalUnits;
			if ( bytes.empty() ) return;
			std::string& m = files[x.file].model;
			size_t p = x.app ? m.size() : *x.pos.begin();
			if ( p > m.size() ) m.resize(p, '\0');
			if ( p + bytes.size() > m.size() ) m.resize(p + bytes.size());
			memcpy(&m[p], bytes.data(), bytes.size());
			x.pos = { p + bytes.size() };
			return;
		}
		case Flush: {
			bool ok = !thrown && payload == "0";
			if ( x.wild ) return;
			if ( ok && x.wr ) checkContent(o, x.file, "flushing it");
			if ( !ok ) {
				if ( !errors && x.wr ) deviation("F02", "flush-fails-without-cause", opName(o) + fmt("\ngave %s although nothing prevents it", quote(payload).c_str()));
				count("failed-flushes");
				if ( x.wr ) x.wild = true;
			}
			return;
		}
		case Seek: case Rewind: {
			bool ok = !thrown && (o.k == Rewind && !obj ? payload == "." : obj ? payload == "1" || payload == "true" : payload == "0");
			if ( x.wild ) {
				if ( ok && !x.wr && o.whence == 0 ) { x.wild = false; x.pos = { o.k == Rewind ? 0 : static_cast<size_t>(o.n) }; }
				return;
			}
			if ( !ok ) {
				bool negative = o.whence != 0 && (x.pos.size() > 1 || static_cast<long>(o.whence == 1 ? *x.pos.begin() : files[x.file].model.size()) + o.n < 0);
				if ( !errors && !negative ) deviation(x.wr ? "F02" : "F01", "seek-fails-without-cause", opName(o) + fmt("\ngave %s although nothing prevents it", quote(payload).c_str()));
				if ( x.wr ) x.wild = true;
				else { x.wild = true; }
				return;
			}
			std::set<size_t> next;
			for ( size_t p : x.pos ) {
				long t = o.k == Rewind ? 0 : (o.whence == 0 ? 0 : o.whence == 1 ? static_cast<long>(p) : static_cast<long>(files[x.file].model.size())) + o.n;
				if ( t >= 0 ) next.insert(static_cast<size_t>(t));
			}
			x.pos = next;
			if ( next.empty() ) x.wild = true;
			return;
		}
		default: return;
	}
}

void feed(const std::string& b) {
	pending += b;
	while ( true ) {
		if ( pending.compare(0, 4, "@end") == 0 && pending.size() >= 5 ) { reachedEnd = true; pending.erase(0, 5); return; }
		if ( current >= ops.size() ) return;
		std::string head = fmt("#%zu:", current), tail = fmt("\n@%zu\n", current);
		size_t e = pending.find(tail);
		if ( e == std::string::npos ) return;
		if ( pending.compare(0, head.size(), head) != 0 ) violation("script-misbehaves", fmt("unexpected output %s", quote(pending).c_str()));
		std::string payload = pending.substr(head.size(), e - head.size());
		pending.erase(0, e + tail.size());
		sim::log("%s -> %s", ops[current].text.c_str(), quote(payload.substr(0, 200)).c_str());
		record(ops[current], payload);
		errorsBefore = W.errors;
		++current;
	}
}

void run(const char* prop) {
	PROP = prop;
	faulty = draw(3) != 0;
	Gen gen;
	gen.alphabet = PROP == "F03";
	gen.bulky = draw(16) == 15;
	static const size_t bufs[] = { 0, 2, 3, 5, 8, 16, 64 };
	streamBuffer = bufs[draw(7)];
	W.reuseFds = draw(2);
	for ( int f = 0; f < FILES; ++f ) {
		files[f].path = fmt("/simfs/work/f%d", f);
		files[f].preset = f == 0 || draw(3) != 0;
		if ( files[f].preset ) {
			std::string c = gen.content(f, range(0, PROP == "F01" ? 40 : 16));
			if ( !gen.alphabet ) {
				if ( draw(2) ) { double d = range(-40, 40) / 4.0; float g = static_cast<float>(range(-40, 40)) / 4.0f; c.insert(0, reinterpret_cast<char*>(&d), 8); c += std::string(reinterpret_cast<char*>(&g), 4); }
				if ( PROP == "F01" && draw(6) == 0 ) c += gen.content(f, range(1000, 2600));
				if ( gen.bulky && draw(4) ) c = draw(2) ? gen.much(f) + c : c + gen.much(f);
			}
			putFile(files[f].path, c);
			gen.sizes[f] = c.size();
			files[f].model = c;
		} else gen.sizes[f] = SIZE_MAX;
	}
	gen.program(range(4, 60));
	std::string text = gen.text();
	logs(text);
	for ( int f = 0; f < FILES; ++f ) {
		files[f].seen = exists(f) ? inode(f) : std::string("\1missing");
		sim::log("file %s: %s", files[f].path.c_str(), files[f].preset ? quote(files[f].model).c_str() : "missing");
	}
	putFile("/simfs/work/main.os", text);
	if ( faulty ) {
		auto& fp = W.faults;
		auto rate = [](uint32_t hi) { return draw(2) ? static_cast<uint32_t>(range(5, static_cast<int>(hi))) : 0u; };
		if ( PROP == "F01" ) { fp.readFail = rate(150); fp.readShort = rate(400); fp.readEintr = rate(150); fp.seekFail = rate(60); fp.openFail = rate(50); }
		if ( PROP == "F02" ) {
			fp.writeFail = rate(150); fp.writeShort = rate(400); fp.writeEintr = rate(100); fp.closeFail = rate(150); fp.seekFail = rate(50);
			if ( draw(3) == 0 ) fp.diskFree = range(0, 120);
			if ( draw(4) == 0 ) fp.readFail = rate(60);
		}
		if ( PROP == "F03" ) { fp.openFail = rate(250); fp.closeFail = rate(150); fp.writeFail = rate(80); fp.readFail = rate(80); if ( draw(3) == 0 ) fp.maxOpen = range(1, 4); }
		if ( draw(4) == 0 ) fp.budget = range(1, 3);
	}
	installStdio(true);
	W.onOutput = [](int fd, const std::string& b) {
		if ( fd == 2 ) sim::log("stderr: %s", b.c_str());
		if ( fd == 2 ) complaints += b;
		if ( fd == 1 && !W.faultsOn && faulty ) W.faultsOn = true;
		if ( fd == 1 ) feed(b);
	};
	W.onExit = [](int st) { violation("script-stopped", fmt("the script ended early with status %d at operation %zu", st, current)); };
	const char* argv[] = { "slang", "-l", "/simfs/lib", "/simfs/work/main.os", nullptr };
	int st = program_main(4, argv);
	if ( current == 0 && !reachedEnd ) violation("program-rejected", "a valid program was rejected: " + complaints);
	if ( !reachedEnd || current != ops.size() ) violation("script-stopped", fmt("the script ended early with status %d at operation %zu", st, current));
	count("operations", ops.size());
	held();
}

}

// --- F04 -------------------------------------------------------------------

// Programs of E03 whose objects own a file: the reference says when each object ends, the disk shows when its file is closed.
static void lifetimes() {
	lang::Profile pr;
	pr.size = range(8, 40); pr.maxDepth = range(2, 5);
	pr.objects = true; pr.throws = draw(4) != 0; pr.finally_ = pr.throws && draw(3) == 0; pr.nativeFail = draw(3) != 0;
	pr.globalsObj = draw(3) == 0; pr.failRate = range(20, 150);
	pr.files = range(1, 2); pr.ops = draw(3) == 2;
	W.reuseFds = draw(2);
	lang::Program p;
	lang::Expectation ex;
	lang::generate(p, pr);
	p.files = pr.files;
	lang::print(p);
	lang::reference(p, pr, ex);
	if ( ex.tooLong || ex.objects > 300 ) discard("program runs too long");
	logs(p.text);
	count("objects", ex.objects);
	for ( auto& it : ex.items ) {
		if ( it.k == lang::Item::May || it.k == lang::Item::Must ) sim::log("expect %s %d", it.k == lang::Item::May ? "may" : "must", it.id);
		else sim::log("expect %d %s fd %d value %d%s", it.k, it.text.c_str(), it.fd, it.value, it.fail ? " fails" : "");
	}
	if ( draw(3) == 0 ) { W.faults.openFail = range(20, 250); }
	static lang::Matcher m;
	m.attach(ex);
	installStdio(true);
	lang::installDevices(m);
	for ( int i = 0; i <= ex.objects + 1; ++i ) putFile(fmt("/simfs/work/r%d", i), "x", true);
	putFile("/simfs/work/main.os", p.text);
	W.onExit = [&](int st) { m.finish(st); held(); };
	auto innerRead = W.socketRead;
	W.socketRead = [innerRead](int fd, void* buf, size_t n) { W.faultsOn = true; return innerRead(fd, buf, n); };
	static const std::string prefix = "/simfs/work/r";
	W.onOpen = [](const std::string& path, bool ok) {
		if ( path.compare(0, prefix.size(), prefix) != 0 ) return;
		count(ok ? "files-opened" : "failed-opens");
		if ( !ok ) m.exempt.insert(atoi(path.c_str() + prefix.size()));
	};
	W.onClose = [](const std::string& path) {
		if ( path.compare(0, prefix.size(), prefix) != 0 ) return;
		sim::log("closed %s", path.c_str());
		m.destroyed(atoi(path.c_str() + prefix.size()));
	};
	auto inner = W.onOutput;
	W.onOutput = [inner](int fd, const std::string& b) {
		if ( b.find("error(s) during") != std::string::npos ) violation("program-rejected", "a valid program was rejected:\n" + m.partial + b);
		inner(fd, b);
	};
	const char* argv[] = { "slang", "-l", "/simfs/lib", "/simfs/work/main.os", nullptr };
	int st = program_main(4, argv);
	m.finish(st);
	if ( W.badCloses ) violation("closed-twice", "a descriptor was closed that was not open");
	held();
}

// Functions that open files and leave in every possible way under arbitrary I/O faults. Between two calls made by
// Main no file object is in use, so nothing may be open.
struct Leaver {
	std::string text;
	int ind = 1, vars = 0, budget = 0, funcs = 0, self = 0;
	std::vector<std::string> inScope;
	void line(const std::string& s) { text += std::string(static_cast<size_t>(ind), '\t') + s + "\n"; }
	std::string fileExpr() {
		static const char* modes[] = { "r", "w", "a", "r+", "w+" };
		return fmt("new System.IO.File(\"/simfs/work/r%d\", \"%s\")", range(0, 4), modes[draw(5)]);
	}
	void op(const std::string& s) { line(draw(2) ? "try { " + s + " } catch { }" : s); }
	void leave(int loops) {
		switch ( draw(loops ? 5u : 3u) ) {
			case 0: line("return 1;"); break;
			case 1: line(fmt("throw %d;", range(1, 9))); break;
			case 2: line("throw \"s\";"); break;
			case 3: line("break;"); break;
			default: line("continue;"); break;
		}
	}
	void block(int depth, int loops) {
		size_t mark = inScope.size();
		int n = range(1, 4);
		for ( int i = 0; i < n && budget > 0; ++i ) statement(depth, loops);
		inScope.resize(mark);
	}
	void statement(int depth, int loops) {
		--budget;
		uint32_t k = draw(depth > 0 ? 14u : 8u);
		if ( k <= 1 || inScope.empty() ) {
			std::string v = fmt("x%d", vars++);
			uint32_t how = draw(4);
			if ( how == 3 && self + 1 < funcs ) line("System.IO.File " + v + " = make(a);");
			else if ( how == 2 ) { line("System.IO.File " + v + " = new System.IO.File();"); line(fmt("%s.open(\"/simfs/work/r%d\", \"%s\");", v.c_str(), range(0, 4), draw(2) ? "w" : "r")); }
			else line("System.IO.File " + v + " = " + fileExpr() + ";");
			inScope.push_back(v);
			return;
		}
		std::string v = inScope[draw(static_cast<uint32_t>(inScope.size()))];
		switch ( k ) {
			case 2: op(v + ".write(" + (draw(2) ? "7" : "\"abcdefgh\"") + ");"); break;
			case 3: op(v + (draw(2) ? ".readChar();" : ".readInt();")); break;
			case 4: if ( draw(2) ) op(v + ".close();"); else op(fmt("%s.open(\"/simfs/work/r%d\", \"%s\");", v.c_str(), range(0, 4), draw(2) ? "w" : "r")); break;
			case 5: line(v + " = " + fileExpr() + ";"); break;
			case 6: op(draw(2) ? v + ".rewind();" : v + ".seek(1);"); break;
			case 7: if ( self + 1 < funcs ) line(fmt("f%d(a + %d, %s);", range(self + 1, funcs - 1), range(0, 2), v.c_str())); else line(v + ".write(true);"); break;
			case 8: case 9: line(fmt("if ( a %% 4 == %d ) {", range(0, 3))); ++ind; block(depth - 1, loops); leave(loops); --ind; line("}"); break;
			case 10: {
				std::string i = fmt("i%d", vars++);
				line("for ( int " + i + " = 0; " + i + " < " + fmt("%d", range(1, 3)) + "; " + i + "++ ) {"); ++ind; block(depth - 1, loops + 1); --ind; line("}");
				break;
			}
			case 11: line("{"); ++ind; block(depth - 1, loops); --ind; line("}"); break;
			default:
				line("try {"); ++ind; block(depth - 1, loops); --ind;
				line("}"); line("catch {"); ++ind; if ( draw(2) ) block(depth - 1, loops); if ( draw(4) == 0 ) line("throw;"); --ind; line("}");
				if ( draw(3) == 0 ) { line("finally {"); ++ind; line("a = a;"); --ind; line("}"); }
				break;
		}
	}
	void program(int rounds) {
		text = "import System.IO.File;\n";
		text += "public System.IO.File make(int a) modify throws {\n\tSystem.IO.File m = " + fileExpr() + ";\n" + fmt("\tif ( a %% 4 == %d ) { throw 3; }\n", range(0, 3)) + "\treturn m;\n}\n";
		funcs = range(1, 3);
		for ( self = funcs - 1; self >= 0; --self ) {
			text += fmt("public int f%d(int a, System.IO.File q) modify throws {\n", self);
			inScope.clear(); if ( self ) inScope.push_back("q");
			budget = range(6, 26);
			block(3, 0); block(3, 0);
			line("return 0;");
			text += "}\n";
		}
		text += "public int Main(int argc = 0, string argv = \"\") modify throws {\n\twriteln(\"@start\");\n" + fmt("\tfor ( int i = 0; i < %d; i++ ) {\n", rounds)
			+ "\t\ttry { f0(i, new System.IO.File()); } catch { }\n\t\twriteln(\"@\" + i);\n\t}\n\twriteln(\"@end\");\n\treturn 0;\n}\n";
	}
};

static int round_ = -1;
static std::string outLine;
static void idle() {
	std::string open;
	for ( auto& f : W.fds ) open += " " + f.second.path;
	if ( !open.empty() ) violation("file-left-open", fmt("after round %d no file object is in use but these are still open:%s", round_, open.c_str()));
	if ( W.badCloses ) violation("closed-twice", fmt("up to round %d a descriptor was closed that was not open", round_));
	++S->evalUnits;
}

static void leavers() {
	static const size_t bufs[] = { 0, 2, 3, 8, 64 };
	streamBuffer = bufs[draw(5)];
	W.reuseFds = draw(2);
	Leaver g;
	int rounds = draw(40) == 39 ? range(50, 150) : range(2, 8);
	g.program(rounds);
	logs(g.text);
	for ( int i = 0; i < 5; ++i ) if ( draw(8) != 7 ) putFile(fmt("/simfs/work/r%d", i), std::string(static_cast<size_t>(range(0, 12)), 'x'));
	putFile("/simfs/work/main.os", g.text);
	bool faulty_ = draw(4) != 0;
	if ( faulty_ ) {
		auto rate = [](uint32_t hi) { return draw(2) ? static_cast<uint32_t>(range(5, static_cast<int>(hi))) : 0u; };
		auto& fp = W.faults;
		fp.openFail = rate(200); fp.readFail = rate(200); fp.writeFail = rate(200); fp.seekFail = rate(200); fp.closeFail = rate(200);
		if ( draw(4) == 0 ) fp.diskFree = range(0, 60);
		if ( draw(4) == 0 ) fp.maxOpen = range(1, 4);
		if ( draw(4) == 0 ) fp.budget = range(1, 3);
	}
	installStdio(true);
	W.onOutput = [faulty_](int fd, const std::string& b) {
		if ( fd == 2 ) { complaints += b; return; }
		outLine += b;
		size_t e;
		while ( (e = outLine.find('\n')) != std::string::npos ) {
			std::string l = outLine.substr(0, e); outLine.erase(0, e + 1);
			if ( l == "@start" ) { W.faultsOn = faulty_; reachedEnd = true; continue; }
			if ( l[0] != '@' ) { complaints += l; continue; }
			sim::log("%s", l.c_str());
			if ( l != "@end" ) { ++round_; if ( l != fmt("@%d", round_) ) violation("script-misbehaves", "unexpected output " + l); }
			idle();
		}
	};
	W.onExit = [](int st) { violation("script-stopped", fmt("the script ended early with status %d after round %d", st, round_)); };
	W.onClose = [](const std::string& path) { sim::log("  close %s", path.c_str()); };
	const char* argv[] = { "slang", "-l", "/simfs/lib", "/simfs/work/main.os", nullptr };
	int st = program_main(4, argv);
	if ( !reachedEnd ) violation("program-rejected", "a valid program was rejected: " + complaints);
	if ( round_ != rounds - 1 || st ) violation("script-stopped", fmt("the script ended early with status %d after round %d: %s", st, round_, complaints.c_str()));
	idle();
	count("rounds", rounds); count("files-opened", W.opens);
	held();
}

static void f04() { if ( draw(2) ) leavers(); else lifetimes(); }
static Register f4("F04", f04);

static Register f1("F01", [] { run("F01"); }), f2("F02", [] { run("F02"); }), f3("F03", [] { run("F03"); });
