// C01, F05, L01, M01, N01, N02, O01, P01, T01: scripts that use commands, named files,
// sockets, the console, the environment and the clock. Each run is a list of operations; the script
// frames the result of each one, so it is judged the moment it appears.
#include "world.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <ctime>
#include <iostream>
int program_main(int argc, const char* argv[]);
using namespace sim;

namespace {

// --- framed operations -------------------------------------------------------

struct Step {
	std::string code;			// statements writing the payload
	std::function<void()> start;
	std::function<void(const std::string& payload, bool thrown)> finish;
};
std::vector<Step> steps;
std::string imports, decls, complaints, pend;
size_t cur = 0;
bool inside = false, atEnd = false, faulty = false;

std::string where() { return cur < steps.size() ? fmt("operation %zu: %s\n", cur, steps[cur].code.c_str()) : std::string("end of script\n"); }

void feed(const std::string& b) {
	pend += b;
	while ( cur < steps.size() ) {
		std::string head = fmt("#%zu:", cur), tail = fmt("\n@%zu\n", cur);
		if ( !inside ) {
			if ( pend.size() < head.size() ) return;
			if ( pend.compare(0, head.size(), head) != 0 ) violation("script-misbehaves", fmt("unexpected output %s", quote(pend).c_str()));
			pend.erase(0, head.size());
			inside = true;
			W.faultsOn = faulty;
			if ( steps[cur].start ) steps[cur].start();
		}
		size_t e = pend.find(tail);
		if ( e == std::string::npos ) return;
		std::string payload = pend.substr(0, e);
		pend.erase(0, e + tail.size());
		sim::log("%s -> %s", steps[cur].code.c_str(), quote(payload.substr(0, 200)).c_str());
		++S->evalUnits;
		note(mix(std::hash<std::string>()(steps[cur].code.substr(0, 6)), std::hash<std::string>()(payload.size() > 40 ? payload.substr(0, 40) : payload)));
		if ( steps[cur].finish ) steps[cur].finish(payload, payload == "!");
		inside = false;
		++cur;
	}
}

std::string scriptText() {
	std::string t = imports + "\npublic int Main(int argc = 0, string args = \"\") modify throws {\n" + decls;
	for ( size_t i = 0; i < steps.size(); ++i )
		t += fmt("\twrite(\"#%zu:\"); try { ", i) + steps[i].code + fmt(" } catch { write(\"!\"); } writeln(\"\"); writeln(\"@%zu\");\n", i);
	return t + "\treturn 0;\n}\n";
}

void runSteps() {
	std::string text = scriptText();
	logs(text);
	putFile("/simfs/work/main.os", text);
	installStdio(true);
	W.onOutput = [](int fd, const std::string& b) {
		if ( fd == 2 ) { complaints += b; sim::log("stderr: %s", b.c_str()); }
		else if ( cur == 0 && !inside && b.find('#') != 0 && pend.empty() ) complaints += b;
		else feed(b);
	};
	W.onExit = [](int st) { violation("script-stopped", fmt("the script ended early with status %d, ", st) + where() + complaints); };
	const char* argv[] = { "slang", "-l", "/simfs/lib", "/simfs/work/main.os", nullptr };
	int st = program_main(4, argv);
	if ( cur == 0 && !inside ) violation("program-rejected", "a valid program was rejected: " + complaints);
	if ( cur != steps.size() || st != 0 ) violation("script-stopped", fmt("the script ended early with status %d, ", st) + where() + complaints);
	count("operations", steps.size());
}

void step(const std::string& code, std::function<void(const std::string&, bool)> fin, std::function<void()> start = nullptr) {
	Step s; s.code = code; s.finish = std::move(fin); s.start = std::move(start);
	steps.push_back(s);
}
std::string show(const std::string& e) { return "write(\"\" + " + e + ");"; }

std::string literal(const std::string& s) {		// slang expression for a string
	std::string r; bool open = false;
	for ( char c : s ) {
		bool plain = isalnum(static_cast<unsigned char>(c)) || strchr(" _-=.:/", c);
		if ( plain && c ) { if ( !open ) { r += r.empty() ? "\"" : " + \""; open = true; } r += c; }
		else { if ( open ) { r += "\""; open = false; } r += (r.empty() ? "\"\" + ascii(" : " + ascii(") + fmt("%d)", static_cast<unsigned char>(c)); }
	}
	if ( open ) r += "\"";
	return r.empty() ? "\"\"" : r;
}
std::string word(int lo, int hi) {
	std::string s;
	int n = range(lo, hi);
	for ( int i = 0; i < n; ++i ) s += static_cast<char>('a' + draw(26));
	return s;
}

// --- N01 -----------------------------------------------------------------------

enum Type { TInt, TBool, TDouble, TFloat, TStr };
const char* suffix[] = { "i", "b", "d", "f", "s" };
const char* typeName[] = { "Int", "Bool", "Double", "Float", "String" };

struct Value { Type t; std::string bytes, code; };
Value value(bool str = true) {
	Value v; v.t = static_cast<Type>(draw(str ? 5 : 4));
	switch ( v.t ) {
		case TInt: { static const int sp[] = { 0, 1, -1, 65, 256, 65536, 0x01020304, -2000000000 }; int i = draw(2) ? sp[draw(8)] : range(-1000, 1000); v.bytes.assign(reinterpret_cast<char*>(&i), 4); v.code = fmt("%d", i); break; }
		case TBool: v.bytes = std::string(1, static_cast<char>(draw(2))); v.code = v.bytes[0] ? "true" : "false"; break;
		case TDouble: { double d = range(-400, 400) / 4.0; v.bytes.assign(reinterpret_cast<char*>(&d), 8); v.code = fmt("%.2fd", d); break; }
		case TFloat: { float d = static_cast<float>(range(-400, 400)) / 4.0f; v.bytes.assign(reinterpret_cast<char*>(&d), 4); v.code = fmt("%.2ff", d); break; }
		case TStr: {
			if ( draw(20) == 19 ) { v.bytes = bulk(); v.code = literal(v.bytes); break; }
			int n = draw(8) == 7 ? range(100, 300) : range(0, 12);
			for ( int i = 0; i < n; ++i ) { uint32_t k = draw(12); v.bytes += k == 11 ? '\n' : k == 10 ? '\0' : k == 9 ? static_cast<char>(200) : static_cast<char>('a' + draw(26)); }
			v.code = literal(v.bytes);
			break;
		}
	}
	return v;
}
bool matches(Type t, const std::string& bytes, const std::string& text) {
	switch ( t ) {
		case TStr: return text == bytes;
		case TBool: return static_cast<unsigned char>(bytes[0]) > 1 || text == (bytes[0] ? "1" : "0") || text == (bytes[0] ? "true" : "false");
		case TInt: { int v; memcpy(&v, bytes.data(), 4); return text == fmt("%d", v); }
		case TDouble: { double v; memcpy(&v, bytes.data(), 8); return strtod(text.c_str(), nullptr) == v; }
		default: { float v; memcpy(&v, bytes.data(), 4); return strtof(text.c_str(), nullptr) == v; }
	}
}

struct Conn {
	std::string in;				// what the peer sends, complete
	size_t delivered = 0;
	bool reset = false, resetTold = false;
	size_t pos = 0;				// consumed by the script
	bool inBroken = false;		// an earlier read failed part way
	std::string out, expect;	// received by the peer / written successfully
	size_t room = SIZE_MAX;		// bytes the connection still carries before it fails
	int outErr = EPIPE;
	bool outBroken = false;
};
std::vector<Conn> conns(1);
uint32_t splitRate, eintrRate;

void netHooks() {
	W.socketRead = [](int fd, void* buf, size_t n) -> long {
		auto& f = W.fds[fd];
		if ( !f.socket || f.socket->id <= 0 || f.socket->id >= static_cast<int>(conns.size()) ) return -ENOTCONN;
		Conn& c = conns[f.socket->id];
		if ( draw(1000) < eintrRate ) { count("fault.read-eintr"); sim::log("  ! read interrupted"); return -EINTR; }
		if ( n == 0 ) return 0;
		size_t avail = c.in.size() - c.delivered;
		if ( !avail ) {
			if ( c.reset && !c.resetTold ) { c.resetTold = true; count("fault.reset"); sim::log("  ! connection %d reset", f.socket->id); return -ECONNRESET; }
			count("orderly-end");
			return 0;
		}
		size_t k = std::min(n, avail);
		if ( k > 1 && draw(1000) < splitRate ) { k = 1 + draw(static_cast<uint32_t>(k - 1)); count("fault.read-split"); sim::log("  ! read delivers %zu of %zu", k, n); }
		if ( k < n && k == avail ) sim::log("  ! only %zu of %zu left", k, n);
		memcpy(buf, c.in.data() + c.delivered, k);
		c.delivered += k;
		return static_cast<long>(k);
	};
	W.socketWrite = [](int fd, const void* buf, size_t n) -> long {
		auto& f = W.fds[fd];
		if ( !f.socket || f.socket->id <= 0 || f.socket->id >= static_cast<int>(conns.size()) ) return -ENOTCONN;
		Conn& c = conns[f.socket->id];
		if ( draw(1000) < eintrRate ) { count("fault.write-eintr"); sim::log("  ! write interrupted"); return -EINTR; }
		if ( n == 0 ) return 0;
		if ( c.room == 0 ) { count("fault.write-error"); sim::log("  ! write on connection %d fails", f.socket->id); return -c.outErr; }
		size_t k = std::min(n, c.room);
		if ( k > 1 && draw(1000) < splitRate ) { k = 1 + draw(static_cast<uint32_t>(k - 1)); count("fault.write-split"); sim::log("  ! write takes %zu of %zu", k, n); }
		c.out.append(static_cast<const char*>(buf), k);
		if ( c.room != SIZE_MAX ) c.room -= k;
		return static_cast<long>(k);
	};
}

int nextConn = 1;
int newConn(bool reads, std::vector<Value>& plan) {
	Conn c;
	if ( reads ) {
		int n = range(1, 8);
		for ( int i = 0; i < n; ++i ) { Value v = value(); plan.push_back(v); c.in += v.bytes; }
		if ( draw(3) == 0 && !c.in.empty() ) c.in.resize(draw(static_cast<uint32_t>(c.in.size())));
		c.reset = draw(3) == 0;
	}
	if ( draw(3) == 0 ) { c.room = static_cast<size_t>(range(0, 40)); c.outErr = draw(2) ? EPIPE : ECONNRESET; }
	conns.push_back(c);
	return static_cast<int>(conns.size()) - 1;
}

void writeStep(int id, const std::string& call, const Value& v) {
	step(call, [id, v](const std::string& payload, bool thrown) {
		Conn& c = conns[id];
		if ( !thrown ) {
			if ( c.outBroken && !v.bytes.empty() && c.room == 0 ) violation("write-not-reported", where() + "succeeded on a connection that is gone");
			c.expect += v.bytes;
			if ( c.out != c.expect ) violation("peer-received-other-data", where() + fmt("gave %s; the peer of connection %d has received\n  %s\ninstead of\n  %s", payload.c_str(), id, quote(c.out).c_str(), quote(c.expect).c_str()));
			return;
		}
		if ( c.room != 0 ) violation("write-fails-without-cause", where() + "failed although the connection works");
		bool prefix = c.out.size() >= c.expect.size() && c.out.compare(0, c.expect.size(), c.expect) == 0 && v.bytes.compare(0, c.out.size() - c.expect.size(), c.out, c.expect.size(), std::string::npos) == 0;
		if ( !prefix ) violation("peer-received-other-data", where() + fmt("failed; the peer of connection %d has received\n  %s\nwhich is not %s plus a part of the value", id, quote(c.out).c_str(), quote(c.expect).c_str()));
		c.expect = c.out;
		c.outBroken = true;
		count("failed-writes");
	});
}
void readStep(int id, const std::string& call, Type t, long len) {	// len: bytes for strings, -1: up to the end
	step(call, [id, t, len](const std::string& payload, bool thrown) {
		Conn& c = conns[id];
		size_t left = c.in.size() - c.pos;
		static const size_t sizes[] = { 4, 1, 8, 4 };
		size_t need = t == TStr ? (len < 0 ? left : static_cast<size_t>(len)) : sizes[t];
		bool endHit = t == TStr && len < 0;		// the value is only complete at the end of the stream
		if ( thrown ) {
			if ( !c.inBroken && !(endHit && c.reset) && need <= left ) violation("read-fails-without-cause", where() + fmt("failed although the peer sent %zu more bytes", left));
			c.inBroken = true; count("failed-reads");
			return;
		}
		if ( c.inBroken ) {
			if ( t == TBool ) { if ( c.pos >= c.in.size() ) violation("made-up-value", where() + fmt("gave %s after the stream ended", quote(payload).c_str())); return; }
			for ( size_t p = c.pos; p <= c.in.size(); ++p ) {
				size_t k = std::min(need, c.in.size() - p);
				if ( t != TStr && k < need ) break;
				if ( matches(t, c.in.substr(p, endHit ? std::string::npos : k), payload) ) return;
			}
			violation("made-up-value", where() + fmt("gave %s which the peer never sent", quote(payload).c_str()));
		}
		if ( endHit && c.reset && !c.resetTold ) violation("read-not-to-end", where() + "returned although neither the end nor the failure of the connection was seen");
		if ( endHit && c.reset ) violation("partial-value", where() + fmt("gave %s although the connection failed", quote(payload).c_str()));
		if ( need > left ) {
			if ( t == TStr && !c.reset && payload == c.in.substr(c.pos) ) { c.pos = c.in.size(); return; }
			violation("partial-value", where() + fmt("gave %s although the connection ended after %zu of %zu bytes", quote(payload).c_str(), left, need));
		}
		if ( !matches(t, c.in.substr(c.pos, need), payload) )
			violation("received-other-data", where() + fmt("gave\n  %s\nbut the peer sent\n  %s", quote(payload).c_str(), quote(c.in.substr(c.pos, need)).c_str()));
		c.pos += need;
	});
}

void n01() {
	imports = "import System.Network.All;\n";
	splitRate = draw(4) ? static_cast<uint32_t>(range(50, 900)) : 0; eintrRate = draw(2) ? static_cast<uint32_t>(range(10, 250)) : 0;
	W.reuseFds = draw(2);
	struct Line { int id; std::string name; int kind; std::vector<Value> plan; size_t next = 0; };
	std::vector<Line> lines;
	decls = "\tIPv4Address addr = new IPv4Address(\"10.0.0.1\", 80);\n";
	int n = range(1, 4);
	for ( int i = 0; i < n; ++i ) {
		Line l; l.kind = static_cast<int>(draw(4)); if ( l.kind == 3 ) l.kind = 0;
		l.name = fmt("c%d", i);
		l.id = newConn(l.kind != 1, l.plan);
		if ( l.kind == 0 ) { decls += fmt("\tint c%d = 0;\n", i); }
		lines.push_back(l);
	}
	// connections are made in this order, so the n-th connection made is the n-th line
	W.socketCall = [](const char* name, int fd, int, int) -> int {
		if ( !strcmp(name, "socket") ) return 0;
		if ( !strcmp(name, "connect") ) { W.fds[fd].socket->id = nextConn++; W.fds[fd].socket->state = 3; return 0; }
		if ( !strcmp(name, "accept") ) return nextConn++;
		return 0;
	};
	netHooks();
	for ( auto& l : lines ) {
		if ( l.kind == 0 ) decls += "\t" + l.name + " = socket(AF_INET, SOCK_STREAM, 0);\n\tconnect(" + l.name + ", ISocketAddress addr);\n";
		else if ( l.kind == 1 ) decls += "\tClientSocket " + l.name + " = new ClientSocket(addr);\n\t" + l.name + ".Connect();\n";
		else decls += "\tServerSocket " + l.name + " = new ServerSocket(80);\n\t" + l.name + ".Bind();\n\t" + l.name + ".Listen();\n\t" + l.name + ".Accept();\n";
	}
	int ops = range(3, 30);
	for ( int i = 0; i < ops; ++i ) {
		Line& l = lines[draw(static_cast<uint32_t>(lines.size()))];
		bool rd = l.kind == 2 || (l.kind == 0 && draw(2));
		if ( !rd ) {
			Value v = value();
			if ( l.kind == 0 ) writeStep(l.id, show(fmt("write%s(%s, %s)", suffix[v.t], l.name.c_str(), v.code.c_str())), v);
			else writeStep(l.id, fmt("%s.Write(%s); write(\".\");", l.name.c_str(), v.code.c_str()), v);
			continue;
		}
		Type t; long len = 1;
		if ( l.next < l.plan.size() ) {
			t = l.plan[l.next].t; len = static_cast<long>(l.plan[l.next].bytes.size());
			if ( t == TStr && len == 0 ) len = 0;
			if ( draw(12) == 0 ) { t = TStr; len = -1; l.next = l.plan.size(); }
			++l.next;
		} else { t = static_cast<Type>(draw(5)); len = draw(3) ? range(1, 5) : -1; }
		std::string arg = t == TStr ? fmt(", %ld", len) : std::string();
		if ( l.kind == 0 ) readStep(l.id, show(fmt("read%s(%s%s)", suffix[t], l.name.c_str(), arg.c_str())), t, len);
		else readStep(l.id, show(fmt("%s.Read%s(%s)", l.name.c_str(), typeName[t], t == TStr ? fmt("%ld", len).c_str() : "")), t, len);
	}
	faulty = true;
	runSteps();
	held();
}

// --- N02 -----------------------------------------------------------------------

struct Call { std::string name; int fd, a, b, result; std::string addr; int port = 0, family = 0; };
std::vector<Call> calls;		// made during the current operation
long dataCalls = 0;

void n02() {
	imports = "import System.Network.All;\n";
	uint32_t rate = draw(4) ? static_cast<uint32_t>(range(50, 500)) : 0;
	W.reuseFds = draw(2);
	static std::map<int, std::string> owner;		// variable a descriptor was made for
	static std::string actor;
	W.onSocketFd = [](int fd) { owner[fd] = actor; };
	static auto begin0 = [](const std::string& v) { calls.clear(); dataCalls = 0; actor = v; };
	W.socketCall = [rate](const char* name, int fd, int a, int b) -> int {
		Call c; c.name = name; c.fd = fd; c.a = a; c.b = b; c.addr = W.lastAddress; c.port = W.lastPort; c.family = W.lastFamily;
		c.result = 0;
		if ( c.name == "accept" ) c.result = 7;
		static const int errs[] = { EACCES, EADDRINUSE, ECONNREFUSED, EMFILE, ETIMEDOUT, ENOBUFS };
		if ( W.faultsOn && c.name != "close" && draw(1000) < rate ) { c.result = -errs[draw(6)]; count(("fault." + c.name).c_str()); }
		sim::log("  %s(%d) -> %d", name, fd, c.result);
		if ( c.name == "connect" && c.result == 0 ) W.fds[fd].socket->state = 3;
		if ( c.name == "close" ) {
			auto it = owner.find(fd);
			if ( inside && it != owner.end() && it->second != actor ) violation("closes-foreign-socket", where() + fmt("closed descriptor %d, which belongs to %s", fd, it->second.c_str()));
			owner.erase(fd);
		}
		else if ( fd >= 0 && inside && owner.count(fd) && owner[fd] != actor ) violation("uses-foreign-socket", where() + fmt("called %s for descriptor %d, which belongs to %s", name, fd, owner[fd].c_str()));
		calls.push_back(c);
		return c.result;
	};
	auto data = [](int fd) -> long {
		++dataCalls;
		auto it = W.fds.find(fd);
		if ( it == W.fds.end() || !it->second.socket || it->second.socket->state != 3 ) violation("data-on-unconnected-socket", where() + fmt("a data operation was carried out on descriptor %d, which is not connected", fd));
		return 0;
	};
	W.socketRead = [data](int fd, void* buf, size_t n) -> long { data(fd); memset(buf, 0, n); return static_cast<long>(n); };
	W.socketWrite = [data](int fd, const void*, size_t n) -> long { data(fd); return static_cast<long>(n); };
	W.onBadFd = [](const char* what, int fd) { violation("data-on-unconnected-socket", where() + fmt("%s was called for %d, which is not an open descriptor", what, fd)); };
	auto last = [](const char* name) -> Call* { for ( auto it = calls.rbegin(); it != calls.rend(); ++it ) if ( it->name == name ) return &*it; return nullptr; };

	// native sockets: 2, client objects: 2, server objects: 2
	struct Shared { bool valid = false, connected = false, accepted = false, cconn[2] = { false, false }, sacc[2] = { false, false }, calive[2] = { false, false }, salive[2] = { false, false }; int fd[2] = { -1, -1 }; int saddr[2] = { 0, 0 }; };
	static Shared X;
	for ( int i = 0; i < 2; ++i ) decls += fmt("\tint h%d = 0;\n\tClientSocket k%d;\n\tServerSocket s%d;\n", i, i, i);
	// the first two are used by the objects; the last four are not addresses, nothing may be asked of the system for them
	static const char* given[] = { "10.1.2.3", "127.0.0.1", "::1", "255.255.255.254", "fe80::1:2", "", "", "not an address", "10.1.2.3", "10.1.2.3", "10.1.2.3.4" };
	static const char* ips[] = { "10.1.2.3", "127.0.0.1", "::1", "255.255.255.254", "fe80::1:2", "0.0.0.0", "::", "no address", "no address", "no address", "no address" };
	static const int ports[] = { 80, 4660, 8080, 65535, 1, 8081, 8082, 80, 70000, 80, -1 };
	static const bool six[] = { false, false, true, false, true, false, true, false, false, true, false };
	for ( int i = 0; i < 11; ++i ) decls += fmt("\tIPv%dAddress a%d = new IPv%dAddress(\"%s\", %d);\n", six[i] ? 6 : 4, i, six[i] ? 6 : 4, given[i], ports[i]);
	static const int four[] = { 0, 1, 3, 5, 7, 8, 10 };
	auto checkAddr = [](Call* c, int a) {
		int fam = six[a] ? AF_INET6 : AF_INET;
		if ( c->family != fam || c->addr != ips[a] || c->port != ports[a] )
			violation("wrong-address", where() + fmt("%s was called for %s port %d (family %d) instead of %s port %d (family %d)", c->name.c_str(), c->addr.c_str(), c->port, c->family, ips[a], ports[a], fam));
	};
	// which variables hold usable objects is decided while generating as "maybe": operations on objects that were
	// never created are guarded in the script itself
	int ops = range(4, 30);
	bool made[2][3] = {};		// generated a creation for it
	for ( int i = 0; i < ops; ++i ) {
		uint32_t kind = draw(3); int s = static_cast<int>(draw(2));
		std::string v = fmt("%c%d", "hks"[kind], s);
		auto begin = [v] { begin0(v); };
		if ( !made[s][kind] || draw(8) == 0 ) {
			made[s][kind] = true;
			if ( kind == 0 ) step(fmt("h%d = socket(AF_INET, SOCK_STREAM, 0); write(\"\" + h%d);", s, s), [s, last](const std::string& p, bool thrown) {
				Call* c = last("socket");
				if ( !c ) violation("call-missing", where() + "no socket was requested");
				if ( c->result < 0 ? (!thrown && p != "-1") : thrown || p == "-1" || !W.fds.count(atoi(p.c_str())) ) violation("wrong-result", where() + fmt("gave %s but socket() gave %d", p.c_str(), c->result));
			}, begin);
			if ( kind == 1 ) {
				int a = static_cast<int>(draw(2)); bool ep = draw(3) != 0;
				step(fmt("k%d = new ClientSocket(%s); write(\".\");", s, ep ? fmt("a%d", a).c_str() : draw(2) ? "\"10.1.2.3\", 80" : ""), [s, last](const std::string& p, bool thrown) {
					Call* c = last("socket");
					if ( !c ) violation("call-missing", where() + "no socket was requested");
					if ( c->result < 0 && !thrown ) violation("failure-not-reported", where() + "socket() failed but the script was not told");
					if ( c->result >= 0 && thrown ) violation("fails-without-cause", where() + "failed although socket() succeeded");
					if ( !thrown ) { X.calive[s] = true; X.cconn[s] = false; }
				}, begin);
			}
			int at = kind == 2 && draw(2) ? four[draw(7)] : -1;		// -1: any address, port 4660
			if ( kind == 2 ) step(fmt("s%d = new ServerSocket(%s); write(\".\");", s, at >= 0 ? fmt("a%d, 3", at).c_str() : draw(2) ? "4660, 5" : "4660"), [s, last, at](const std::string& p, bool thrown) {
					Call* c = last("socket");
					if ( !c ) violation("call-missing", where() + "no socket was requested");
					if ( c->result < 0 && !thrown ) violation("failure-not-reported", where() + "socket() failed but the script was not told");
					if ( c->result >= 0 && thrown ) violation("fails-without-cause", where() + "failed although socket() succeeded");
					if ( !thrown ) { X.salive[s] = true; X.sacc[s] = false; X.saddr[s] = at; }
				}, begin);
			continue;
		}
		auto result = [last](const char* name, int okZero) {
			return [last, name, okZero](const std::string& p, bool thrown) {
				Call* c = last(name);
				if ( !c ) { if ( thrown || p == "-1" ) return; violation("call-missing", where() + fmt("gave %s but %s() was never called", p.c_str(), name)); }
				if ( c->result < 0 ? p != "-1" : okZero ? p != "0" : (p == "-1" || thrown || !W.fds.count(atoi(p.c_str()))) )
					violation("wrong-result", where() + fmt("gave %s but %s() %s", p.c_str(), name, c->result < 0 ? "failed" : "succeeded"));
			};
		};
		if ( kind == 0 ) {
			int a = static_cast<int>(draw(4) == 3 ? draw(11) : draw(3));
			if ( a >= 7 ) count("invalid-addresses");
			switch ( draw(6) ) {
				case 0: { auto r = result("bind", 1); step(show(fmt("bind(h%d, ISocketAddress a%d)", s, a)), [r, last, checkAddr, a](const std::string& p, bool t) { r(p, t); if ( Call* c = last("bind") ) checkAddr(c, a); }, begin); break; }
				case 1: { auto r = result("connect", 1); step(show(fmt("connect(h%d, ISocketAddress a%d)", s, a)), [r, last, checkAddr, a](const std::string& p, bool t) { r(p, t); if ( Call* c = last("connect") ) checkAddr(c, a); }, begin); break; }
				case 2: { int q = range(1, 50); auto r = result("listen", 1); step(show(fmt("listen(h%d, %d)", s, q)), [r, last, q](const std::string& p, bool t) { r(p, t); if ( Call* c = last("listen") ) if ( c->a != q ) violation("wrong-argument", where() + fmt("listen() was called with queue length %d", c->a)); }, begin); break; }
				case 3: step(show(fmt("accept(h%d)", s)), result("accept", 0), begin); break;
				case 4: { int how = static_cast<int>(draw(3)); auto r = result("shutdown", 1); step(show(fmt("shutdown(h%d, %s)", s, how == 0 ? "SHUT_RD" : how == 1 ? "SHUT_WR" : "SHUT_RDWR")), [r, last, how](const std::string& p, bool t) { r(p, t); if ( Call* c = last("shutdown") ) if ( c->a != how ) violation("wrong-argument", where() + fmt("shutdown() was called with %d", c->a)); }, begin); break; }
				default: step(show(fmt("close(h%d)", s)) + fmt(" h%d = -1;", s), [](const std::string& p, bool) { bool closed = false; for ( auto& c : calls ) if ( c.name == "close" ) closed = true; if ( closed != (p == "0") ) violation("wrong-result", where() + fmt("gave %s but the socket was %s", p.c_str(), closed ? "closed" : "not closed")); }, begin); break;
			}
			continue;
		}
		std::string guard = "if ( !" + v + " ) { write(\"none\"); } else { ";
		auto guarded = [&](const std::string& code, std::function<void(const std::string&, bool)> f) { step(guard + code + " }", [f](const std::string& p, bool t) { if ( p != "none" ) f(p, t); }, begin); };
		auto yes = [](const std::string& p) { return p == "1" || p == "true"; };
		if ( kind == 1 ) {
			switch ( draw(6) ) {
				case 0: case 1: case 2: {
					int a = draw(4) == 3 ? four[draw(7)] : static_cast<int>(draw(2)); uint32_t how = draw(3);
					guarded(show(v + (how == 0 ? ".Connect()" : how == 1 ? fmt(".Connect(a%d)", a) : ".Connect(\"10.1.2.3\", 80)")), [s, last, yes, checkAddr, how, a](const std::string& p, bool thrown) {
						Call* c = last("connect");
						if ( !c ) { if ( !thrown && yes(p) ) violation("call-missing", where() + "reported a connection but connect() was never called"); X.cconn[s] = false; return; }
						if ( (c->result == 0) != (!thrown && yes(p)) ) violation("wrong-result", where() + fmt("gave %s but connect() %s", p.c_str(), c->result ? "failed" : "succeeded"));
						if ( how ) checkAddr(c, how == 1 ? a : 0);
						X.cconn[s] = c->result == 0;
						count(c->result ? "failed-connects" : "connects");
					});
					break;
				}
				case 3: guarded(show(v + ".IsConnected()"), [s, yes](const std::string& p, bool) { if ( yes(p) != X.cconn[s] ) violation("wrong-state", where() + fmt("gave %s but the last attempt to connect %s", p.c_str(), X.cconn[s] ? "succeeded" : "failed")); }); break;
				case 4: guarded(v + ".Write(" + (draw(2) ? "7" : "\"ab\"") + "); write(\".\");", [s](const std::string&, bool thrown) {
					if ( !X.cconn[s] && !thrown ) violation("failure-not-reported", where() + "succeeded without a connection");
					if ( !X.cconn[s] && dataCalls ) violation("data-on-unconnected-socket", where() + "data was written without a connection");
					if ( X.cconn[s] && thrown ) violation("fails-without-cause", where() + "failed although the socket is connected");
				}); break;
				default: guarded(v + ".Close(); write(\".\");", [s](const std::string&, bool) {
					if ( X.cconn[s] && calls.empty() ) violation("call-missing", where() + "the connection was not closed");
					X.cconn[s] = false;
				}); break;
			}
		} else {
			switch ( draw(6) ) {
				case 0: guarded(show(v + ".Bind()"), [s, last, yes, checkAddr](const std::string& p, bool thrown) {
					Call* c = last("bind");
					if ( !c ) { if ( !thrown && yes(p) ) violation("call-missing", where() + "reported success but bind() was never called"); return; }
					if ( (c->result == 0) != (!thrown && yes(p)) ) violation("wrong-result", where() + fmt("gave %s but bind() %s", p.c_str(), c->result ? "failed" : "succeeded"));
					if ( X.saddr[s] >= 0 ) checkAddr(c, X.saddr[s]);
					else if ( c->addr != "0.0.0.0" || c->port != 4660 ) violation("wrong-address", where() + fmt("bind() was called for %s port %d instead of any address and port 4660", c->addr.c_str(), c->port));
				}); break;
				case 1: guarded(show(v + ".Listen()"), result("listen", 1)); break;
				case 2: case 3: guarded(show(v + ".Accept()"), [s, last, yes](const std::string& p, bool thrown) {
					Call* c = last("accept");
					if ( !c ) { if ( !thrown && yes(p) ) violation("call-missing", where() + "reported a connection but accept() was never called"); X.sacc[s] = false; return; }
					if ( (c->result > 0) != (!thrown && yes(p)) ) violation("wrong-result", where() + fmt("gave %s but accept() %s", p.c_str(), c->result > 0 ? "succeeded" : "failed"));
					X.sacc[s] = c->result > 0;
					count(c->result > 0 ? "accepts" : "failed-accepts");
				}); break;
				case 4: guarded(show(v + ".Close()"), [v, yes](const std::string& p, bool thrown) {
					bool closed = false;
					for ( auto& c : calls ) if ( c.name == "close" ) closed = true;
					if ( closed != (!thrown && yes(p)) ) violation("wrong-result", where() + fmt("gave %s but the socket was %s", p.c_str(), closed ? "closed" : "not closed"));
				}); break;
				default: guarded(show(v + (draw(2) ? ".ReadInt()" : ".ReadString(2)")), [s](const std::string&, bool thrown) {
					if ( !X.sacc[s] && !thrown ) violation("failure-not-reported", where() + "succeeded without a connection");
					if ( X.sacc[s] && thrown ) violation("fails-without-cause", where() + "failed although a connection was accepted");
				}); break;
			}
		}
	}
	faulty = true;
	runSteps();
	held();
}

// --- T01 -----------------------------------------------------------------------

uint64_t monoAt, wallAt, allowed, wantSleep;
std::set<uint64_t> wallSeen;		// every second shown while the operation ran
uint64_t sleepCalls;
void jump() {
	static const int64_t by[] = { 1, -1, 3600, -3600, 86400ll * 400, -86400ll * 400 };
	int64_t d = by[draw(6)] * 1000000000ll;
	int64_t t = static_cast<int64_t>(W.wallNanos) + d;
	if ( t < 1000000000ll || t > 2100000000ll * 1000000000ll ) return;
	W.wallNanos = static_cast<uint64_t>(t);
	count("fault.clock-set");
	sim::log("  ! clock set by %lld s", static_cast<long long>(d / 1000000000ll));
}
void t01() {
	W.wallNanos = (1000000000ull + static_cast<uint64_t>(draw(1000000000))) * 1000000000ull + draw(1000000000);
	static uint32_t intr, jumps, late;
	bool f = draw(4) != 0;
	intr = f && draw(3) ? static_cast<uint32_t>(range(100, 800)) : 0; jumps = f && draw(3) ? static_cast<uint32_t>(range(50, 500)) : 0; late = draw(2) ? 300 : 0;
	auto begin = [] { monoAt = W.monoNanos; wallAt = W.wallNanos; allowed = 0; sleepCalls = 0; wallSeen.clear(); wallSeen.insert(W.wallNanos / 1000000000ull); };
	W.onSleep = [](uint64_t want, uint64_t* slept) -> int {
		if ( ++sleepCalls > 5000 ) violation("sleep-does-not-end", where() + "more than 5000 calls and still not done");
		uint64_t extra = draw(1000) < late ? draw(50000000) : draw(200000);
		allowed += extra;
		*slept = want + extra;
		int r = 0;
		if ( sleepCalls < 200 && draw(1000) < intr ) { *slept = want ? (static_cast<uint64_t>(draw(1000)) * (want / 1000)) : 0; allowed -= extra; r = EINTR; count("fault.sleep-interrupted"); sim::log("  ! sleep interrupted after %llu of %llu ns", static_cast<unsigned long long>(*slept), static_cast<unsigned long long>(want)); }
		if ( draw(1000) < jumps ) jump();
		return r;
	};
	int n = range(1, 14);
	for ( int i = 0; i < n; ++i ) {
		switch ( draw(4) ) {
			case 0: case 1: {
				static const int ms[] = { 0, 1, 2, 7, 10, 999, 1000, 1001, 2500, 60000, 3600000, 2147483647 };
				int m = draw(3) ? ms[draw(12)] : range(0, 5000);
				if ( draw(10) == 0 ) m = -range(1, 5);
				step(fmt("sleep(%d); write(\".\");", m), [m](const std::string&, bool thrown) {
					uint64_t took = W.monoNanos - monoAt, want = m > 0 ? static_cast<uint64_t>(m) * 1000000ull : 0;
					if ( m < 0 ) return;
					if ( thrown ) violation("sleep-fails", where() + "raised an exception");
					if ( took < want ) violation("sleeps-too-short", where() + fmt("returned after %llu of %llu ns", static_cast<unsigned long long>(took), static_cast<unsigned long long>(want)));
					if ( took > want + allowed + 2000000 + sleepCalls * 1000000 ) violation("sleeps-too-long", where() + fmt("returned after %llu ns instead of %llu (the system added %llu)", static_cast<unsigned long long>(took), static_cast<unsigned long long>(want), static_cast<unsigned long long>(allowed)));
				}, begin);
				break;
			}
			case 2: step(show("time()"), [](const std::string& p, bool) {
				wallSeen.insert(W.wallNanos / 1000000000ull);
				if ( !wallSeen.count(strtoull(p.c_str(), nullptr, 10)) ) violation("wrong-time", where() + fmt("gave %s but the clock showed %llu", p.c_str(), static_cast<unsigned long long>(W.wallNanos / 1000000000ull)));
			}, [begin] { begin(); if ( draw(1000) < jumps ) { jump(); wallSeen.clear(); wallSeen.insert(W.wallNanos / 1000000000ull); } W.wallNanos += draw(3) * 400000000ull; wallSeen.clear(); wallSeen.insert(W.wallNanos / 1000000000ull); });
				break;
			default: {
				bool given = draw(3) == 0; int at = range(1, 2000000000);
				step(show(given ? fmt("strftime(\"%%Y-%%m-%%d %%H:%%M:%%S\", %d)", at) : "strftime(\"%Y-%m-%d %H:%M:%S\")"), [given, at](const std::string& p, bool) {
					time_t t = given ? at : static_cast<time_t>(W.wallNanos / 1000000000ull);
					struct tm tm; gmtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
					if ( p != b ) violation("wrong-time", where() + fmt("gave %s but the %s %s", p.c_str(), given ? "time given is" : "clock showed", b));
				}, [begin] { begin(); W.wallNanos += draw(3) * 700000000ull; });
				break;
			}
		}
	}
	faulty = true;
	runSteps();
	held();
}

// --- P01 -----------------------------------------------------------------------

std::map<std::string, std::string> envModel;
bool refused, callSeen;
void p01() {
	uint32_t rate = draw(2) ? static_cast<uint32_t>(range(50, 400)) : 0;
	W.onSetenv = [rate](const char*, const char*) -> int {
		callSeen = true;
		if ( W.faultsOn && draw(1000) < rate ) { refused = true; count("fault.env-refused"); sim::log("  ! refused"); return ENOMEM; }
		return 0;
	};
	auto begin = [] { refused = callSeen = false; };
	std::vector<std::string> names;
	for ( int i = 0; i < 4; ++i ) names.push_back(fmt("SV_%s%d", word(0, 5).c_str(), i));
	names.push_back("SV_"); names.push_back("SV");
	for ( auto& n : names ) if ( draw(4) == 0 ) { std::string v = draw(24) == 23 ? bulk() : word(0, 9); setenv(n.c_str(), v.c_str(), 1); envModel[n] = v; }
	for ( auto& e : envModel ) sim::log("inherited %s=%s", e.first.c_str(), e.second.c_str());
	decls = "\tstring junk = \"\"; string keep0 = \"\"; string keep1 = \"\";\n";
	int n = range(4, 40);
	for ( int i = 0; i < n; ++i ) {
		std::string name = names[draw(static_cast<uint32_t>(names.size()))];
		std::string val; uint32_t vk = draw(6);
		if ( vk == 0 ) val = ""; else if ( vk == 1 ) val = "a=b=" + word(0, 3); else if ( vk == 2 ) val = word(20, 60); else if ( vk == 3 ) val = word(1, 3) + " " + word(1, 3); else val = word(1, 8);
		if ( draw(24) == 23 ) val = bulk();
		switch ( draw(8) ) {
			case 0: case 1: {
				int over = draw(3) ? 1 : 0; bool bad = draw(12) == 0;
				std::string nm = bad ? (draw(2) ? name + "=x" : std::string()) : name;
				step(show("setenv(" + literal(nm) + ", " + literal(val) + fmt(", %d)", over)), [nm, val, over, bad](const std::string& p, bool thrown) {
					bool ok = !thrown && p == "0";
					if ( (refused || bad) && ok ) violation("refusal-not-reported", where() + fmt("gave %s although the system refused", p.c_str()));
					if ( !refused && !bad && !ok ) violation("set-fails-without-cause", where() + fmt("gave %s", p.c_str()));
					if ( ok && (over || !envModel.count(nm)) ) envModel[nm] = val;
				}, begin);
				break;
			}
			case 2: case 3: {
				uint32_t src = draw(3);
				std::string e = literal(name + "=" + val);
				std::string pre;
				if ( src == 1 ) { pre = fmt("keep%d = ", static_cast<int>(draw(2))); std::string var = pre.substr(0, 5); pre += e + "; "; e = var; }
				step(pre + show("putenv(" + e + ")"), [name, val](const std::string& p, bool thrown) {
					bool ok = !thrown && p == "0";
					if ( refused && ok ) violation("refusal-not-reported", where() + fmt("gave %s although the system refused", p.c_str()));
					if ( !refused && !ok ) violation("set-fails-without-cause", where() + fmt("gave %s", p.c_str()));
					if ( ok ) envModel[name] = val;
				}, begin);
				break;
			}
			case 4: step("junk = " + literal(word(10, 80)) + "; junk = junk + junk; keep0 = keep0 + \"x\"; write(\".\");", nullptr, begin); break;
			default: step(show("getenv(" + literal(name) + ")"), [name](const std::string& p, bool) {
				auto it = envModel.find(name);
				std::string want = it == envModel.end() ? "" : it->second;
				if ( p != want ) violation("wrong-value", where() + fmt("gave %s instead of %s", quote(p).c_str(), quote(want).c_str()));
			}, begin); break;
		}
	}
	faulty = true;
	runSteps();
	// the environment a command started now would inherit
	for ( auto& e : envModel ) {
		const char* v = getenv(e.first.c_str());
		if ( !v || e.second != v ) violation("wrong-value", fmt("at the end of the script %s is %s in the environment instead of %s", e.first.c_str(), v ? quote(v).c_str() : "unset", quote(e.second).c_str()));
	}
	held();
}

// --- C01 -----------------------------------------------------------------------

std::string cmdOut; int cmdStatus; bool cmdFailed, cmdRan;
std::string cmdText;
void c01() {
	static const size_t bufs[] = { 0, 1, 2, 16, 127, 128, 129, 200 };
	streamBuffer = bufs[draw(8)];
	uint32_t openRate = draw(3) == 0 ? static_cast<uint32_t>(range(50, 400)) : 0;
	bool f = draw(3) != 0;
	W.faults.readShort = f ? static_cast<uint32_t>(range(50, 800)) : 0;
	W.faults.readFail = f && draw(2) ? static_cast<uint32_t>(range(20, 300)) : 0;
	W.popenCall = [openRate](const std::string& cmd, std::string& out) -> int {
		cmdRan = true; cmdText = cmd;
		if ( W.faultsOn && draw(1000) < openRate ) { cmdFailed = true; count("fault.popen"); sim::log("  ! popen fails"); return -EMFILE; }
		out = cmdOut;
		return cmdStatus;
	};
	int n = range(1, 10);
	for ( int i = 0; i < n; ++i ) {
		std::string cmd = word(1, 12) + (draw(3) == 0 ? " -" + word(1, 20) : std::string());
		std::string out; int status = draw(3) ? 0 : range(1, 255);
		switch ( draw(25) == 24 ? 25 : draw(5) ) {
			case 0: break;
			case 25: out = bulk(); if ( draw(2) ) out += "\n" + (draw(2) ? bulk() : word(0, 9)); break;
			case 1: out = word(1, 20); break;
			case 2: { int k = range(1, 5); for ( int j = 0; j < k; ++j ) out += word(0, 30) + "\n"; if ( draw(2) ) out += word(1, 9); break; }
			case 3: { int k = range(120, 140); for ( int j = 0; j < k; ++j ) out += static_cast<char>('a' + j % 26); if ( draw(2) ) out += "\n" + word(0, 5); break; }
			default: { int k = range(1, 6); for ( int j = 0; j < k; ++j ) { out += word(0, 60); if ( draw(3) == 0 ) out += std::string(1, '\0'); else out += "\n"; } break; }
		}
		static long errorsAt, opensAt;
		step("write(system(" + literal(cmd) + "));", [cmd, out](const std::string& p, bool thrown) {
			if ( !cmdRan || cmdText != cmd ) violation("wrong-command", where() + fmt("ran %s", cmdRan ? quote(cmdText).c_str() : "nothing"));
			bool failed = cmdFailed || W.errors > errorsAt;
			if ( thrown ) { if ( !failed ) violation("fails-without-cause", where() + "raised an exception although the command ran"); count("failed-commands"); }
			else if ( cmdFailed ) violation("failure-not-reported", where() + fmt("gave %s although the command could not be started", quote(p).c_str()));
			else if ( p != out && !(failed && p.empty()) ) violation("wrong-output", where() + fmt("gave\n  %s\nbut the command wrote\n  %s%s", quote(p).c_str(), quote(out).c_str(), failed ? "\nand reading it failed" : ""));
			else if ( p != out ) violation("failure-not-reported", where() + "gave an empty result although the output could not be read");
			if ( W.opens - W.closes != opensAt ) violation("pipe-left-open", where() + "the pipe to the command was not closed");
		}, [out, status] { cmdOut = out; cmdStatus = status; cmdFailed = cmdRan = false; errorsAt = W.errors; opensAt = W.opens - W.closes; });
	}
	faulty = true;
	runSteps();
	held();
}

// --- O01 -----------------------------------------------------------------------

std::string want[3], got[3];
uint32_t shortRate;
void compareOut(bool final_) {
	for ( int fd = 1; fd <= 2; ++fd ) {
		if ( got[fd].size() > want[fd].size() || want[fd].compare(0, got[fd].size(), got[fd]) != 0 )
			violation("wrong-output", fmt("on stream %d appeared\n  %s\ninstead of\n  %s", fd, quote(got[fd]).c_str(), quote(want[fd]).c_str()));
		if ( final_ && got[fd] != want[fd] )
			violation("output-lost", fmt("on stream %d only\n  %s\nof\n  %s\nappeared", fd, quote(got[fd]).c_str(), quote(want[fd]).c_str()));
	}
}
struct OutGen {
	std::string body[4]; std::string prints[4][3];
	int mode = 0;		// of endl: 0 none, 1 stdout, 2 stderr
	bool counted = true;
	bool looped = false;
	std::string chunk() { return !looped && draw(40) == 39 ? bulk() : draw(10) == 9 ? word(200, 700) : word(0, 9) + (draw(4) == 0 ? " " : ""); }
	// emits one output statement; adds its bytes to the wanted output
	std::string emit(int ind) {
		std::string t = chunk(), pad(static_cast<size_t>(ind), '\t');
		switch ( draw(12) ) {
			case 0: want[1] += t; return pad + "write(" + literal(t) + ");\n";
			case 1: want[1] += t + "\n"; return pad + "writeln(" + literal(t) + ");\n";
			case 2: want[1] += t; mode = 1; return pad + "cout(" + literal(t) + ");\n";
			case 3: want[2] += t; mode = 2; return pad + "cerr(" + literal(t) + ");\n";
			case 4: if ( !mode ) { want[1] += t; mode = 1; return pad + "cout(" + literal(t) + ");\n"; } want[mode] += "\n"; return pad + "endl();\n";
			case 5: { char c = static_cast<char>('A' + draw(26)); want[1] += c; return pad + fmt("putchar(%d);\n", c); }
			case 6: { int v = range(-99, 999); want[1] += fmt("%d\n", v); return pad + fmt("puts(%d);\n", v); }
			case 7: { int fd = draw(2) ? 2 : 1; want[fd] += t; return pad + "fputs(" + literal(t) + (fd == 1 ? ", STDOUT);\n" : ", STDERR);\n"); }
			case 8: { int fd = draw(2) ? 2 : 1; char c = static_cast<char>('A' + draw(26)); want[fd] += c; return pad + fmt("fputc(%d, %s);\n", c, fd == 1 ? "STDOUT" : "STDERR"); }
			case 9: { int fd = draw(2) ? 2 : 1; want[fd] += t; return pad + (fd == 1 ? "fwrites(STDOUT, " : "fwrites(STDERR, ") + literal(t) + ");\n"; }
			case 10: { int fd = draw(2) ? 2 : 1; return pad + (fd == 1 ? "fflush(STDOUT);\n" : "fflush(STDERR);\n"); }
			default: want[1] += t + "\n"; return pad + "print(" + literal(t) + ");\n";
		}
	}
};

void o01() {
	OutGen g;
	bool unbuffered = draw(4) == 0;
	shortRate = draw(3) ? static_cast<uint32_t>(range(50, 900)) : 0;
	std::string text = "public int Main(int argc = 0, string args = \"\") modify throws {\n";
	int n = range(1, 30);
	int loops = 0;
	uint32_t end = draw(5);		// 0,1 return; 2 exit; 3 exit in a function; 4 uncaught exception
	for ( int i = 0; i < n; ++i ) {
		if ( draw(6) == 0 && loops < 3 ) {		// a loop repeating one statement
			int times = range(2, 40);
			std::string before1 = want[1], before2 = want[2]; int m = g.mode;
			g.looped = true;
			std::string s = g.emit(2);
			g.looped = false;
			std::string d1 = want[1].substr(before1.size()), d2 = want[2].substr(before2.size());
			if ( s.find("endl") != std::string::npos ) m = g.mode;
			for ( int k = 1; k < times; ++k ) { want[1] += d1; want[2] += d2; }
			text += fmt("\tfor ( int i%d = 0; i%d < %d; i%d++ ) {\n", i, i, times, i) + s + "\t}\n";
			++loops; (void)m;
		}
		else text += g.emit(1);
	}
	int status = 0;
	if ( end <= 1 ) { status = static_cast<int>(draw(3)); text += fmt("\treturn %d;\n}\n", status); }
	else if ( end == 2 ) { status = static_cast<int>(draw(4)); text += fmt("\tif ( argc >= 0 ) { exit(%d); }\n\treturn 0;\n}\n", status); }
	else if ( end == 3 ) { status = static_cast<int>(draw(4)); std::string s = g.emit(1); text += "\tleave();\n\twrite(\"not reached\");\n\treturn 0;\n}\n"; text = "public void leave() modify throws {\n" + s + fmt("\texit(%d);\n}\n", status) + text; }
	else { status = 255; std::string s = g.emit(1); text += "\tleave();\n\twrite(\"not reached\");\n\treturn 0;\n}\n"; text = "public void leave() modify throws {\n" + s + "\tthrow 5;\n}\n" + text; }
	logs(text);
	sim::log("wanted on stdout: %s", quote(want[1]).c_str());
	putFile("/simfs/work/main.os", text);
	static bool ended; ended = end == 4;
	W.outputFault = [](int, size_t k) -> long {
		if ( k > 1 && draw(1000) < shortRate ) { count("fault.write-short"); return 1 + static_cast<long>(draw(static_cast<uint32_t>(k - 1))); }
		return static_cast<long>(k);
	};
	W.onOutput = [](int fd, const std::string& b) {
		got[fd] += b;
		note(mix(static_cast<uint64_t>(fd), b.size()));
		if ( got[2].find("error(s) during") != std::string::npos || got[1].find("error(s) during") != std::string::npos ) violation("program-rejected", "a valid program was rejected: " + got[1] + got[2]);
	};
	static int expectStatus; expectStatus = status;
	static bool uncaught; uncaught = end == 4;
	auto finish = [](int st) {
		std::cout.flush(); std::cerr.flush(); fflush(nullptr);		// as the C runtime does at exit
		if ( uncaught ) {		// the interpreter's own report follows what the script wrote
			for ( int fd = 1; fd <= 2; ++fd ) if ( got[fd].size() > want[fd].size() ) got[fd].resize(want[fd].size());
		}
		compareOut(true);
		(void)st;
		S->evalUnits += want[1].size() + want[2].size();
		held();
	};
	W.onExit = finish;
	installStdio(unbuffered);
	const char* argv[] = { "slang", "/simfs/work/main.os", nullptr };
	int st = program_main(2, argv);
	finish(st);
}

// --- L01 -----------------------------------------------------------------------

std::string typed; size_t typedPos;		// what arrives at standard input, and how much of it the script was given
std::string inputText() {
	std::string s;
	int n = range(0, 14);
	for ( int i = 0; i < n; ++i ) {
		switch ( drawWeighted({5, 2, 1, 1, 1}) ) {
			case 0: s += word(1, 9); break;
			case 1: s += word(1, 4) + std::string(static_cast<size_t>(range(1, 3)), ' ') + word(1, 4) + (draw(3) == 0 ? " " : ""); break;
			case 2: s += std::string(static_cast<size_t>(range(1, 3)), draw(2) ? '\t' : ' ') + word(0, 5); break;
			case 3: s += word(0, 3) + static_cast<char>(draw(4) ? range(128, 255) : 0) + word(0, 3); break;
			default: { static const int sizes[] = { 127, 128, 255, 256, 1023, 1024, 1025, 4100 }; int k = sizes[draw(8)]; for ( int j = 0; j < k; ++j ) s += static_cast<char>('a' + j % 26); break; }
		}
		if ( draw(8) ) s += "\n";
		if ( draw(6) == 5 ) s += "\r\n";
	}
	return s;
}
void l01() {
	typed = inputText();
	if ( draw(3) == 2 && !typed.empty() ) { typed.resize(draw(static_cast<uint32_t>(typed.size()))); count("fault.input-cut"); }
	typedPos = 0;
	static uint32_t splitRate; splitRate = draw(3) ? static_cast<uint32_t>(range(50, 900)) : 0;
	static size_t sent; sent = 0;
	W.onInput = [] {
		size_t left = typed.size() - sent, k = left;
		if ( left > 1 && draw(1000) < splitRate ) { k = 1 + draw(static_cast<uint32_t>(std::min<size_t>(left - 1, 40))); count("fault.input-split"); }
		std::string s = typed.substr(sent, k);
		sent += k;
		note(mix(77, k));
		return s;
	};
	static bool fresh; fresh = false;		// a character may be pushed back
	int n = range(1, 24);
	for ( int i = 0; i < n; ++i ) {
		switch ( draw(7) ) {
			case 0: case 1: step("write(cin());", [](const std::string& p, bool thrown) {
				fresh = false;
				while ( typedPos < typed.size() && isspace(static_cast<unsigned char>(typed[typedPos])) ) ++typedPos;
				size_t e = typed.find('\n', typedPos);
				std::string line = typed.substr(typedPos, (e == std::string::npos ? typed.size() : e) - typedPos);
				typedPos = e == std::string::npos ? typed.size() : e + 1;
				if ( thrown && line.empty() ) return;		// end of input
				if ( thrown ) violation("fails-without-cause", where() + "raised an exception");
				if ( p != line ) violation("wrong-input", where() + fmt("gave\n  %s\ninstead of\n  %s", quote(p).c_str(), quote(line).c_str()));
				count("lines");
			}); break;
			case 2: case 3: {
				std::string code = draw(2) ? "getchar()" : "fgetc(STDIN)";
				step(show(code), [](const std::string& p, bool thrown) {
					int c = typedPos < typed.size() ? static_cast<unsigned char>(typed[typedPos]) : -1;
					if ( c >= 0 ) ++typedPos; else count("reads-at-end");
					fresh = c >= 0;
					if ( c < 0 && thrown ) return;
					if ( thrown || p != fmt("%d", c) ) violation("wrong-input", where() + fmt("gave %s instead of %d", quote(p).c_str(), c));
				});
				break;
			}
			case 4: {
				int k = draw(5) == 4 ? range(100, 1200) : range(1, 20);
				bool line = draw(2);
				step(line ? fmt("write(fgets(STDIN, %d));", k + 1) : fmt("write(freads(STDIN, %d));", k), [k, line](const std::string& p, bool thrown) {
					std::string want_ = typed.substr(typedPos, static_cast<size_t>(k));
					if ( line && want_.find('\n') != std::string::npos ) want_.resize(want_.find('\n') + 1);
					typedPos += want_.size();
					fresh = !want_.empty();
					if ( thrown && want_.empty() ) return;
					if ( thrown || p != want_ ) violation("wrong-input", where() + fmt("gave\n  %s\ninstead of\n  %s", quote(p).c_str(), quote(want_).c_str()));
				});
				break;
			}
			case 5: step("int c = getchar(); if ( c >= 0 ) { ungetc(c, STDIN); } write(\"\" + c);", [](const std::string& p, bool thrown) {
				int c = typedPos < typed.size() ? static_cast<unsigned char>(typed[typedPos]) : -1;
				if ( c < 0 && thrown ) return;
				if ( thrown || p != fmt("%d", c) ) violation("wrong-input", where() + fmt("gave %s instead of %d", quote(p).c_str(), c));
			}); break;
			default: step("write(feof(STDIN) ? \"1\" : \"0\");", [](const std::string& p, bool) {
				if ( p == "1" && typedPos < typed.size() ) violation("end-too-early", where() + fmt("the end of the input was reported %zu bytes too early", typed.size() - typedPos));
			}); break;
		}
	}
	runSteps();
	held();
}

// --- M01 -----------------------------------------------------------------------

std::string keys; std::vector<uint64_t> keyAt;		// what is typed and when
size_t keysGiven, keysTaken;						// by the terminal; by the script
struct termios termAt;
bool keyWait;										// the script wants to wait for keys
uint64_t readAt;
size_t arrived() { size_t k = keysGiven; while ( k < keys.size() && keyAt[k] <= W.monoNanos ) ++k; return k; }
// what a read of the terminal finds now
size_t readable() {
	size_t k = arrived();
	if ( W.term.c_lflag & ICANON ) { size_t e = keys.rfind('\n', k - 1); return k == keysGiven || e == std::string::npos || e < keysGiven ? keysGiven : e + 1; }
	return k;
}
bool sameTerminal(const struct termios& a, const struct termios& b) {
	return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc);
}
void m01() {
	W.isTerminal = draw(8) != 7;
	W.term.c_iflag = ICRNL | IXON; W.term.c_oflag = OPOST | ONLCR; W.term.c_cflag = CS8 | CREAD; W.term.c_lflag = ICANON | ECHO | ISIG;
	W.term.c_cc[VMIN] = 1; W.term.c_cc[VINTR] = 3; W.term.c_cc[VEOF] = 4; W.term.c_cc[VERASE] = 127;
	if ( draw(4) == 3 ) W.term.c_lflag &= ~static_cast<tcflag_t>(ECHO);
	if ( draw(4) == 3 ) W.term.c_lflag |= IEXTEN | ECHOE;
	if ( draw(6) == 5 ) { W.term.c_lflag &= ~static_cast<tcflag_t>(ICANON); W.term.c_cc[VTIME] = 0; }
	if ( draw(6) == 5 ) W.term.c_iflag |= IUTF8;
	termAt = W.term;
	keys.clear(); keyAt.clear(); keysGiven = keysTaken = 0; keyWait = true;
	int n = range(0, 12);
	uint64_t t = W.monoNanos;
	for ( int i = 0; i < n; ++i ) {
		keys += draw(4) == 3 ? '\n' : static_cast<char>('a' + draw(26));
		t += draw(3) ? static_cast<uint64_t>(range(1, 400)) * 1000000ull : 0;
		keyAt.push_back(t);
	}
	W.onFlush = [] { keysGiven = arrived(); };
	W.keysReady = [] { size_t k = W.isTerminal ? readable() : keys.size(); return k == keysGiven && arrived() == keys.size() ? -1 : static_cast<int>(k - keysGiven); };
	W.onInput = [] {
		std::string s;
		if ( !W.isTerminal ) { s = keys.substr(keysGiven); keysGiven = keys.size(); return s; }
		bool waits = (W.term.c_lflag & ICANON) || W.term.c_cc[VMIN] > 0;
		size_t k = readable();
		while ( k == keysGiven && (waits || W.term.c_cc[VTIME]) ) {
			size_t a = arrived();
			if ( a >= keys.size() ) { k = a; break; }			// hung up
			uint64_t at = keyAt[a], to = W.monoNanos + W.term.c_cc[VTIME] * 100000000ull;
			if ( !waits && at > to ) { S->virtualNanos += to - W.monoNanos; W.wallNanos += to - W.monoNanos; W.monoNanos = to; break; }
			S->virtualNanos += at - W.monoNanos; W.wallNanos += at - W.monoNanos; W.monoNanos = at;
			count("waited-for-a-key");
			k = readable();
		}
		s = keys.substr(keysGiven, k - keysGiven);
		keysGiven = k;
		note(mix(78, s.size()));
		return s;
	};
	int m = range(1, 20);
	bool set = false;
	for ( int i = 0; i < m; ++i ) {
		switch ( drawWeighted({ 5, 3, 2 }) ) {
			case 0: {
				static uint64_t began; static size_t ready;
				step("int c = getchar(); write(\"\" + c);", [](const std::string& p, bool thrown) {
					int c = keysTaken < keys.size() ? static_cast<unsigned char>(keys[keysTaken]) : -1;
					if ( W.isTerminal && !keyWait && keysTaken >= ready ) {		// none was pressed, or at best while the call was running
						count("no-key");
						if ( W.monoNanos > began + 50000000ull ) violation("waits-for-key", where() + fmt("took %llu ms although waiting was switched off", static_cast<unsigned long long>((W.monoNanos - began) / 1000000)));
						if ( !thrown && p == "-1" ) return;
						if ( keysTaken >= arrived() && keysTaken >= keysGiven ) violation("key-made-up", where() + "gave " + quote(p) + " although no key was pressed");
					}
					if ( c < 0 ) { if ( thrown || p == "-1" ) return; violation("wrong-key", where() + "gave " + quote(p) + " after the end of the input"); }
					++keysTaken; count("keys");
					if ( thrown || p != fmt("%d", c) ) violation(p == "-1" ? "key-missed" : "wrong-key", where() + fmt("gave %s instead of %d (%s)", quote(p).c_str(), c, keyWait ? "the keyboard was set to wait for keys" : "the key had been pressed"));
				}, [] { began = W.monoNanos; ready = arrived(); });
				break;
			}
			case 1: {
				bool b = draw(2);
				set = true;
				step(fmt("setKeyboardBlocking(%s); write(\".\");", b ? "true" : "false"), [b](const std::string&, bool thrown) {
					if ( thrown ) violation("mode-fails", where() + "raised an exception");
					keyWait = b;
					count(b ? "set-blocking" : "set-non-blocking");
				});
				break;
			}
			default: { int ms = range(0, 300); step(fmt("sleep(%d); write(\".\");", ms), nullptr); }
		}
	}
	static uint32_t ending; ending = draw(6);		// 0, 1 return; 2 exit; 3 uncaught exception; 4 failed assertion; 5 failing operation
	static const char* endings[] = { "", "", "\tif ( argc >= 0 ) { exit(3); }\n", "\tif ( argc >= 0 ) { throw 5; }\n", "\tassert( argc < 0 );\n", "\twrite(\"\" + 1 / (argc - argc));\n" };
	(void)set;
	std::string text = scriptText(), last = "\treturn 0;\n}\n";
	text.insert(text.size() - last.size(), endings[ending]);
	logs(text);
	putFile("/simfs/work/main.os", text);
	installStdio(true);
	W.onOutput = [](int fd, const std::string& b) {
		if ( fd == 2 ) { complaints += b; sim::log("stderr: %s", b.c_str()); }
		else if ( cur == 0 && !inside && b.find('#') != 0 && pend.empty() ) complaints += b;
		else feed(b);
	};
	auto finish = [](int st) {
		if ( cur == 0 && !inside ) violation("program-rejected", "a valid program was rejected: " + complaints);
		if ( cur != steps.size() ) violation("script-stopped", fmt("the script ended early with status %d, ", st) + where() + complaints);
		if ( W.isTerminal && !sameTerminal(W.term, termAt) ) violation("terminal-not-restored", fmt("the program ended (status %d) and left the terminal with other settings (flags %x, minimum %d) than it had found (flags %x, minimum %d)",
			st, W.term.c_lflag, W.term.c_cc[VMIN], termAt.c_lflag, termAt.c_cc[VMIN]));
		++S->evalUnits;
		count(fmt("ended-%u", ending).c_str());
		count("operations", steps.size());
		held();
	};
	W.onExit = finish;
	const char* argv[] = { "slang", "-l", "/simfs/lib", "/simfs/work/main.os", nullptr };
	int st = program_main(4, argv);
	finish(st);
}

// --- F05 -----------------------------------------------------------------------

std::map<std::string, std::string> disk;	// path -> content; directories end with a slash
std::string relevant(const std::map<std::string, std::string>& m) { std::string s; for ( auto& e : m ) s += "  " + e.first + " " + quote(e.second.substr(0, 40)) + "\n"; return s; }
std::set<std::string> tempNames;
void compareDisk() {
	std::map<std::string, std::string> now;
	for ( auto& f : W.files ) {
		if ( f.first.compare(0, 13, "/simfs/work/x") != 0 ) continue;
		now[f.first + (f.second->dir ? "/" : "")] = f.second->dir ? "" : f.second->data;
	}
	if ( now != disk ) violation("wrong-files", where() + "left\n" + relevant(now) + "instead of\n" + relevant(disk));
	for ( auto& f : W.files ) if ( f.first.compare(0, 4, "/tmp") == 0 && f.first != "/tmp" ) violation("wrong-files", where() + "left " + f.first);
}
bool isDir(const std::string& p) { return disk.count(p + "/") != 0; }
bool exists(const std::string& p) { return disk.count(p) || isDir(p); }
bool empty_(const std::string& d) { auto i = disk.upper_bound(d + "/"); return i == disk.end() || i->first.compare(0, d.size() + 1, d + "/") != 0; }
std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }

void f05() {
	static const char* names[] = { "/simfs/work/xa", "/simfs/work/xb", "/simfs/work/xc", "/simfs/work/xd", "/simfs/work/xd/xe", "/simfs/work/xd/xa", "/simfs/work/xf", "/simfs/work/x g.txt" };
	for ( int i = 0; i < 8; ++i ) {
		std::string p = names[i];
		if ( i == 3 || i == 6 ) { if ( draw(2) ) { putDir(p); disk[p + "/"] = ""; } continue; }
		if ( parent(p) != "/simfs/work" && !isDir(parent(p)) ) continue;
		if ( draw(2) ) { std::string c = word(0, 12); putFile(p, c); disk[p] = c; }
	}
	putDir("/tmp");
	bool f = draw(3) != 0;
	W.faults.removeFail = f && draw(2) ? static_cast<uint32_t>(range(50, 500)) : 0;
	W.faults.renameFail = f && draw(2) ? static_cast<uint32_t>(range(50, 500)) : 0;
	W.faults.openFail = f && draw(3) == 0 ? static_cast<uint32_t>(range(50, 300)) : 0;
	W.faults.writeFail = f && draw(3) == 0 ? static_cast<uint32_t>(range(20, 200)) : 0;
	static long before_; 
	imports = "import System.IO.File;\n";
	auto mark = [] { before_ = W.errors; };
	int n = range(1, 16);
	for ( int i = 0; i < n; ++i ) {
		auto pick = [] { std::string p = names[draw(8)]; return p; };
		auto spell = [](const std::string& p) { return literal(draw(4) == 3 ? p.substr(12) : p); };		// relative to the working directory
		switch ( drawWeighted({4, 5, 2, 2, 1, 2}) ) {
			case 0: { std::string p = pick(); step(show("remove(" + spell(p) + ")"), [p](const std::string& r, bool thrown) {
				bool can = exists(p) && !(isDir(p) && !empty_(p)), injected = W.errors > before_;
				bool ok = r == "0";
				if ( thrown ) ok = false;
				if ( ok && (!can || injected) ) violation("failure-not-reported", where() + "reported success although it failed");
				if ( !ok && can && !injected ) violation("fails-without-cause", where() + fmt("gave %s although nothing failed", quote(r).c_str()));
				if ( ok ) { disk.erase(p); disk.erase(p + "/"); count("removed"); }
				compareDisk();
			}, mark); break; }
			case 1: { std::string p = pick(), q = pick(); step(show("rename(" + spell(p) + ", " + spell(q) + ")"), [p, q](const std::string& r, bool thrown) {
				bool can = exists(p) && (parent(q) == "/simfs/work" || isDir(parent(q))), injected = W.errors > before_;
				if ( can && exists(q) && isDir(q) != isDir(p) ) can = false;
				if ( can && isDir(q) && p != q && !empty_(q) ) can = false;
				if ( can && q.compare(0, p.size() + 1, p + "/") == 0 ) can = false;
				bool ok = r == "0" && !thrown;
				if ( ok && (!can || injected) ) violation("failure-not-reported", where() + "reported success although it failed");
				if ( !ok && can && !injected ) violation("fails-without-cause", where() + fmt("gave %s although nothing failed", quote(r).c_str()));
				if ( ok && p != q ) {
					std::map<std::string, std::string> d;
					for ( auto& e : disk ) {
						if ( e.first == q || e.first == q + "/" ) continue;
						if ( e.first == p ) d[q] = e.second;
						else if ( e.first.compare(0, p.size() + 1, p + "/") == 0 ) d[q + e.first.substr(p.size())] = e.second;
						else d[e.first] = e.second;
					}
					if ( disk.count(p) ) d[q] = disk[p];
					if ( isDir(p) ) d[q + "/"] = "";
					disk = d;
					count("renamed");
				}
				compareDisk();
			}, mark); break; }
			case 2: { std::string p = pick(); step("write(System.IO.File.Exists(" + spell(p) + ") ? \"1\" : \"0\");", [p](const std::string& r, bool thrown) {
				bool injected = W.errors > before_;
				if ( !thrown && r == "1" && !exists(p) ) violation("wrong-answer", where() + "found a file that does not exist");
				if ( (thrown || r == "0") && disk.count(p) && !injected ) violation("wrong-answer", where() + "did not find a file that exists");
				compareDisk();
			}, mark); break; }
			case 3: { std::string p = pick(), c = word(0, 30); step("int h = fopen(" + spell(p) + ", \"w\"); if ( h ) { fputs(" + literal(c) + ", h); write(\"\" + fclose(h)); } else { write(\"n\"); }", [p, c](const std::string& r, bool thrown) {
				bool injected = W.errors > before_;
				if ( injected ) {		// reported or not is the matter of F02; the content of this file is open
					disk.erase(p);
					if ( hasFile(p) && !W.files[p]->dir ) disk[p] = getFile(p);
				}
				else if ( !isDir(p) && (parent(p) == "/simfs/work" || isDir(parent(p))) ) {
					if ( thrown || r != "0" ) violation("fails-without-cause", where() + fmt("gave %s although nothing failed", quote(r).c_str()));
					disk[p] = c;
				}
				compareDisk();
			}, mark); break; }
			case 4: step("write(tmpnam());", [](const std::string& r, bool thrown) {
				if ( thrown || r.empty() || r[0] != '/' ) violation("wrong-answer", where() + fmt("gave %s", quote(r).c_str()));
				if ( hasFile(r) || !tempNames.insert(r).second ) violation("wrong-answer", where() + fmt("gave %s, which is not new", r.c_str()));
				compareDisk();
			}, mark); break;
			default: { std::string c = word(1, 9); step("int h = tmpfile(); if ( h ) { fputs(" + literal(c) + ", h); rewind(h); write(fgets(h, 100)); write(\"|\" + fclose(h)); } else { write(\"n\"); }", [c](const std::string& r, bool thrown) {
				bool injected = W.errors > before_;
				if ( !injected && (thrown || r != c + "|0") ) violation("wrong-answer", where() + fmt("gave %s", quote(r).c_str()));
				compareDisk();
			}, mark); break; }
		}
	}
	faulty = true;
	runSteps();
	held();
}

}

static Register r1("N01", n01), r2("N02", n02), r3("T01", t01), r4("P01", p01), r5("C01", c01), r6("O01", o01), r7("L01", l01), r8("F05", f05), r9("M01", m01);
