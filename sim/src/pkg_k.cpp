// K01-K05: histories of slang-pkg commands against simulated repository
// servers, a simulated disk and a simulated shell.  Every command runs in a
// process of its own; what it left behind is compared with what it was asked
// to do, starting from the state of the disk before the command.
#include "pkg_world.h"
#include <algorithm>
#include <cstring>
#include <json/json.h>
#include <Core/Version.h>
int program_main(int argc, const char* argv[]);
using namespace sim;

namespace {

using Snapshot = std::map<std::string, std::string>;	// directories have a trailing slash
using Strings = std::vector<std::string>;

std::string PROP;
std::string LIB;				// with trailing slash
const std::string WORK = "/simfs/work/";
const std::string REPO = "http://repo.sim/stable/";
bool foreign = false;

void deviation(const std::string& owner, const std::string& cls, const std::string& msg) {
	if ( PROP == owner ) violation(cls, msg);
	sim::log("deviation that belongs to %s: %s: %s", owner.c_str(), cls.c_str(), msg.c_str());
	count("foreign-deviation");
	held();
}
void decided() { ++S->evalUnits; }

// --- versions ----------------------------------------------------------------

struct Ver {
	int v[3] = { 0, 0, 0 };
	std::string label;		// of a version before the one it is named after
	Ver() {}
	explicit Ver(const std::string& s) { sscanf(s.c_str(), "%d.%d.%d", &v[0], &v[1], &v[2]); size_t k = s.find('-'); if ( k != std::string::npos ) label = s.substr(k + 1); }
	bool same(const Ver& o) const { return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
	bool operator<(const Ver& o) const {
		if ( !same(o) ) return std::lexicographical_compare(v, v + 3, o.v, o.v + 3);
		return label.empty() || o.label.empty() ? label.size() > o.label.size() : label < o.label;
	}
	bool operator==(const Ver& o) const { return same(o) && label == o.label; }
	std::string str() const { return fmt("%d.%d.%d", v[0], v[1], v[2]) + (label.empty() ? "" : "-" + label); }
};

// --- repository --------------------------------------------------------------

struct Dep { std::string name, min, max; };
struct Release {
	std::string version;
	std::vector<Dep> deps;
	std::string arch;
	bool external = false, hidden = false;		// hidden: not published yet
	int info = 0;			// 0 good, else damaged or missing in some way
	int tar = 0;
	Strings links;
	Strings extra;
	std::string directory;	// what the module says about its directory
};
struct Mod { std::string name; std::vector<Release> releases; bool inIndex = true; };
std::vector<Mod> repo;
bool indexDamaged = false;
bool anyMax = false;

Mod* mod(const std::string& n) { for ( auto& m : repo ) if ( m.name == n ) return &m; return nullptr; }
Release* release(const std::string& n, const Ver& v) {
	Mod* m = mod(n);
	if ( m ) for ( auto& r : m->releases ) if ( Ver(r.version) == v && !r.hidden ) return &r;
	return nullptr;
}
// the version the index names: the newest published one
std::string offered(const Mod& m) {
	const Release* best = nullptr;
	for ( auto& r : m.releases ) if ( !r.hidden && (!best || Ver(best->version) < Ver(r.version)) ) best = &r;
	return best ? best->version : "";
}

std::string info(const Mod& m, const Release& r) {
	Json::Value j;
	j["name"] = "Module " + m.name; j["name_short"] = m.name; j["description"] = "about " + m.name; j["version"] = r.version;
	if ( !r.arch.empty() ) j["architecture"] = r.arch;
	for ( auto& d : r.deps ) {
		Json::Value x; x["module"] = d.name;
		if ( !d.min.empty() ) x["version_min"] = d.min;
		if ( !d.max.empty() ) x["version_max"] = d.max;
		j["dependencies"].append(x);
	}
	j["target"]["type"] = r.external ? "external" : "internal";
	if ( r.external ) j["target"]["url"] = "http://other.sim/" + m.name + "-" + r.version + ".tgz";
	if ( !r.directory.empty() ) j["target"]["directory"] = r.directory;
	for ( auto& l : r.links ) j["target"]["install"].append(l);
	return Json::StyledWriter().write(j);
}
std::vector<std::pair<std::string, std::string>> content(const Mod& m, const Release& r) {
	std::vector<std::pair<std::string, std::string>> f;
	f.push_back({ m.name + "/" + m.name + ".os", "code of " + m.name + " " + r.version + "\n" });
	for ( auto& e : r.extra ) f.push_back({ m.name + "/" + e, "file " + e + " of " + m.name + " " + r.version + "\n" });
	f.push_back({ m.name + "/module.json", info(m, r) });
	for ( auto& l : r.links ) f.push_back({ m.name + "/" + l, "tool of " + m.name + " " + r.version + "\n" });
	return f;
}
std::string indexText() {
	Json::Value j; j["modules"] = Json::Value(Json::arrayValue);
	for ( auto& m : repo ) {
		if ( !m.inIndex || offered(m).empty() ) continue;
		Json::Value x; x["name"] = m.name; x["name_full"] = "Module " + m.name; x["version"] = offered(m); x["description"] = "about " + m.name;
		j["modules"].append(x);
	}
	return Json::StyledWriter().write(j);
}
// kinds of damage a server may deliver with status 200
std::string damaged(const std::string& good, int kind) {
	switch ( kind ) {
		case 1: return "";
		case 2: return good.substr(0, good.size() / 2);
		case 3: return "<html>maintenance</html>";
		case 4: return "[ 1, 2, 3 ]";
		case 5: { Json::Value j; Json::Reader().parse(good, j); if ( j.isMember("version") ) j["version"] = Json::Value(Json::arrayValue), j["version"].append("1.0.0"); else j["modules"] = "none"; return Json::StyledWriter().write(j); }
		case 6: { Json::Value j; Json::Reader().parse(good, j); j["dependencies"] = "all"; if ( j.isMember("modules") ) j["modules"] = Json::Value(Json::arrayValue), j["modules"].append(7); return Json::StyledWriter().write(j); }
		default: return "null";
	}
}
void publish() {
	pkg::server.clear();
	pkg::server[REPO + "modules/index.json"] = { 200, indexDamaged ? damaged(indexText(), 2) : indexText() };
	for ( auto& m : repo ) for ( auto& r : m.releases ) {
		if ( r.hidden ) continue;
		std::string dir = REPO + "modules/" + m.name + "/" + r.version + "/";
		if ( r.info != 9 ) pkg::server[dir + "module.json"] = { 200, r.info ? damaged(info(m, r), r.info) : info(m, r) };
		std::string tar = pkg::pack(content(m, r));
		if ( r.tar == 1 ) tar = tar.substr(0, tar.size() * 2 / 3);
		if ( r.tar == 2 ) tar[tar.size() / 2] ^= 1;
		if ( r.tar == 3 ) tar = "";
		if ( r.tar != 9 ) pkg::server[r.external ? "http://other.sim/" + m.name + "-" + r.version + ".tgz" : dir + "module.tar.gz"] = { 200, tar };
	}
}

// --- disk --------------------------------------------------------------------

Snapshot snapshot() {
	Snapshot s;
	for ( auto& f : W.files ) {
		if ( f.second->readOnly || f.first.compare(0, 4, "/obs") == 0 ) continue;
		if ( f.second->dir ) s[f.first == "/" ? "/" : f.first + "/"] = ""; else s[f.first] = f.second->data;
	}
	return s;
}
bool under(const std::string& p, const std::string& dir) { return p.compare(0, dir.size(), dir) == 0; }
bool parse(const std::string& text, Json::Value& j) {
	Json::Reader r;
	return r.parse(text, j) && j.isObject();
}
std::string text(const Json::Value& j) { return j.isString() ? j.asString() : ""; }

struct Installed { std::string dir, name; Ver version; std::vector<Dep> deps; };
std::map<std::string, Installed> installed(const Snapshot& s) {
	std::map<std::string, Installed> r;
	for ( auto& f : s ) {
		if ( !under(f.first, LIB) ) continue;
		std::string rest = f.first.substr(LIB.size());
		size_t k = rest.find('/');
		if ( k == std::string::npos || rest.substr(k) != "/module.json" ) continue;
		Json::Value j;
		if ( !parse(f.second, j) || !j["name_short"].isString() ) continue;
		Installed i; i.dir = LIB + rest.substr(0, k + 1); i.name = j["name_short"].asString(); i.version = Ver(text(j["version"]));
		if ( j["dependencies"].isArray() ) for ( auto& d : j["dependencies"] ) if ( d.isObject() ) i.deps.push_back({ text(d["module"]), text(d["version_min"]), text(d["version_max"]) });
		if ( !r.count(i.name) ) r[i.name] = i;
	}
	if ( !r.count(PRODUCT_NAME) ) { Installed i; i.name = PRODUCT_NAME; i.version = Ver(PRODUCT_VERSION); r[i.name] = i; }
	return r;
}
std::map<std::string, std::string> filesOf(const Snapshot& s, const std::string& dir) {
	std::map<std::string, std::string> r;
	for ( auto i = s.lower_bound(dir); i != s.end() && under(i->first, dir); ++i ) if ( i->first.back() != '/' ) r[i->first.substr(dir.size())] = i->second;
	return r;
}
std::set<std::string> dirsOf(const Snapshot& s) {
	std::set<std::string> r;
	for ( auto& f : s ) if ( under(f.first, LIB) ) {
		size_t k = f.first.find('/', LIB.size());
		if ( k != std::string::npos ) { std::string n = f.first.substr(LIB.size(), k - LIB.size()); if ( n != ".slang" ) r.insert(n); }
	}
	return r;
}
std::string at(const Snapshot& s, const std::string& p) { auto i = s.find(p); return i == s.end() ? "" : i->second; }
std::string configPath() { return LIB + ".slang/config.json"; }
std::string indexPath() { return LIB + ".slang/cache/repositories/main.json"; }

// --- running one command -----------------------------------------------------

struct Plan {			// faults of one command
	bool any = false;
	int crashAt = 0;	// > 0: the process is killed at this state change
};
struct Result { int status = 0; int signal = 0; bool crashed = false, faulted = false; Snapshot pre, post; std::string faults; };

uint64_t faultCount() {
	uint64_t n = 0;
	for ( uint32_t i = 0; i < S->ncounters; ++i ) {
		const char* c = S->counters[i].name;
		if ( strncmp(c, "fault.", 6) == 0 && !strstr(c, "-short") ) n += S->counters[i].value;
	}
	return n;
}

Result command(const Strings& args, const Plan& plan) {
	Result r;
	pkg::forget();
	r.pre = snapshot();
	std::string line = "slang-pkg";
	for ( auto& a : args ) line += " " + sim::quote(a);
	sim::log("$ %s%s", line.c_str(), plan.any ? "   (faults on)" : "");
	uint64_t before = faultCount();
	int left = plan.crashAt;
	ProcResult p = runProcess([&]() {
		std::vector<const char*> argv = { "slang-pkg" };
		for ( auto& a : args ) argv.push_back(a.c_str());
		argv.push_back(nullptr);
		W.faultsOn = plan.any;
		if ( !plan.any ) W.faults = FaultPlan();
		if ( left > 0 ) W.beforeCall = [&](const char* what, const std::string& path) {
			if ( path.compare(0, 4, "/obs") == 0 ) return;
			if ( --left == 0 ) { sim::log("  ! killed before %s %s", what, path.c_str()); count("fault.crash"); crashProcess(); }
		};
		installStdio(true);
		int st = program_main(static_cast<int>(args.size()) + 1, argv.data());
		fflush(stdout);
		return st;
	});
	r.status = p.status; r.signal = p.signal; r.crashed = p.crashed;
	r.faulted = faultCount() != before;
	r.post = snapshot();
	r.faults = pkg::observed("faults");
	sim::log("  => status %d%s%s", r.status, r.signal ? fmt(" signal %d", r.signal).c_str() : "", r.crashed ? " killed" : "");
	note(mix(0x71, static_cast<uint64_t>(r.status) * 7 + static_cast<uint64_t>(r.signal) + (r.crashed ? 1000 : 0)));
	count(r.crashed ? "command-killed" : r.status ? "command-failed" : "command-succeeded");
	return r;
}
std::string show(const Strings& args) { std::string s = "slang-pkg"; for ( auto& a : args ) s += " " + sim::quote(a); return s; }

// --- checks common to all commands -------------------------------------------

bool sameJson(const std::string& a, const std::string& b) { Json::Value x, y; return parse(a, x) && parse(b, y) && x == y; }
// members that loadConfig adds by itself
void tidy(Json::Value& j) {
	for ( const char* k : { "authentication", "authorization" } ) if ( j.isMember("repository") && j["repository"].isObject() && j["repository"][k].isNull() ) j["repository"].removeMember(k);
	if ( j["restrictions"].isNull() || j["restrictions"].empty() ) j.removeMember("restrictions");
}
bool sameConfig(const std::string& a, const std::string& b) {
	if ( a == b ) return true;
	Json::Value x, y;
	if ( !parse(a, x) || !parse(b, y) ) return false;
	tidy(x); tidy(y);
	return x == y;
}
std::string owner(const Result& r, const char* faulty, const char* clean) { return r.faulted || r.crashed ? faulty : clean; }

// config: the new content it may have, or empty if it must stay
void checkDatabase(const Strings& args, const Result& r, const std::string& newConfig) {
	bool hadConfig = r.pre.count(configPath()), hasConfig = r.post.count(configPath());
	std::string oldC = at(r.pre, configPath()), nowC = at(r.post, configPath());
	decided();
	if ( hadConfig && !hasConfig ) deviation("K02", "configuration-lost", show(args) + ": the configuration file is gone");
	if ( hasConfig && hadConfig && !sameConfig(oldC, nowC) && (newConfig.empty() || !sameConfig(newConfig, nowC)) )
		deviation("K02", "configuration-damaged", show(args) + ": the configuration is neither the old nor the new one\n--- old\n" + oldC + "\n--- now\n" + nowC + (newConfig.empty() ? "" : "\n--- new\n" + newConfig));
	bool hadIndex = r.pre.count(indexPath()), hasIndex = r.post.count(indexPath());
	std::string oldI = at(r.pre, indexPath()), nowI = at(r.post, indexPath());
	std::string full = pkg::server[REPO + "modules/index.json"].body;
	bool received = pkg::observed("received").find("/index.json\n") != std::string::npos;
	decided();
	bool disk = r.crashed || r.faults.find("disk") != std::string::npos;
	if ( hadIndex != hasIndex || oldI != nowI ) {
		if ( hadIndex && !hasIndex ) deviation(disk ? "K02" : "K01", "index-lost", show(args) + ": the cached index is gone");
		if ( nowI != full ) deviation(disk ? "K02" : "K01", "index-damaged", show(args) + ": the cached index is neither the old one nor the one of the server\n--- now\n" + nowI);
		if ( !received ) deviation("K01", "index-damaged", show(args) + ": the cached index changed although it was not received completely");
	}
}
void checkAlive(const Strings& args, const Result& r) {
	if ( r.signal ) deviation(r.faulted ? "K01" : args[0] == "remove" || args[0] == "purge" ? "K04" : "K03", fmt("crash-signal-%d", r.signal), show(args) + fmt(": ended by signal %d", r.signal));
}
// everything but what pattern allows must be as before
void checkUntouched(const Strings& args, const Result& r, const std::string& own, const char* cls, const std::function<bool(const std::string&)>& allowed) {
	decided();
	for ( auto& f : r.pre ) {
		if ( allowed(f.first) ) continue;
		auto i = r.post.find(f.first);
		if ( i == r.post.end() ) deviation(own, cls, show(args) + ": " + f.first + " is gone");
		if ( i->second != f.second ) deviation(own, cls, show(args) + ": " + f.first + " was changed\n--- old\n" + f.second + "\n--- now\n" + i->second);
	}
	for ( auto& f : r.post ) if ( !r.pre.count(f.first) && !allowed(f.first) ) deviation(own, cls, show(args) + ": " + f.first + " was created");
}
bool cacheFile(const std::string& p) { return under(p, LIB + ".slang/"); }

// --- install -----------------------------------------------------------------

struct Request { std::string name, version; };

struct Restrict { Ver min, max; bool hasMin = false, hasMax = false; };
std::map<std::string, Restrict> restrictions(const Snapshot& s) {
	std::map<std::string, Restrict> r;
	Json::Value j;
	if ( !parse(at(s, configPath()), j) || !j["restrictions"].isObject() ) return r;
	for ( auto& n : j["restrictions"].getMemberNames() ) {
		auto& x = j["restrictions"][n]; Restrict q;
		if ( !x.isObject() ) continue;
		if ( x.isMember("version_min") ) { q.hasMin = true; q.min = Ver(text(x["version_min"])); }
		if ( x.isMember("version_max") ) { q.hasMax = true; q.max = Ver(text(x["version_max"])); }
		r[n] = q;
	}
	return r;
}
bool permitted(const std::map<std::string, Restrict>& rs, const std::string& n, const Ver& v) {
	auto i = rs.find(n);
	if ( i == rs.end() ) return true;
	return !(i->second.hasMin && v < i->second.min) && !(i->second.hasMax && i->second.max < v);
}

// index known to the program: name -> version
bool knownIndex(const Snapshot& pre, std::map<std::string, std::string>& out) {
	Json::Value j;
	std::string t = at(pre, indexPath());
	bool ok = parse(t, j) && j["modules"].isArray();
	if ( ok ) for ( auto& m : j["modules"] ) ok = ok && m.isObject() && m["name"].isString() && m["version"].isString();
	if ( !ok && !parse(pkg::server[REPO + "modules/index.json"].body, j) ) return false;
	if ( !j["modules"].isArray() ) return false;
	for ( auto& m : j["modules"] ) { if ( !m.isObject() ) return false; if ( !out.count(text(m["name"])) ) out[text(m["name"])] = text(m["version"]); }
	return true;
}

// Reference resolution: dependencies in their minimum version (or the one of
// the index if there is none), the highest minimum wins.  Only used to decide
// whether an install has to succeed.
struct Resolver {
	const std::map<std::string, Installed>& have;
	std::map<std::string, std::string> index;
	bool skip, reverse;
	std::map<std::string, Ver> plan;
	int steps = 0;
	Resolver(const std::map<std::string, Installed>& h, bool s, bool r) : have(h), skip(s), reverse(r) {}

	bool require(const std::string& n, const Ver& v) {
		if ( ++steps > 500 ) return false;
		auto i = plan.find(n);
		if ( i != plan.end() && !(i->second < v) ) return true;
		plan[n] = v;
		Release* r = release(n, v);
		if ( !r || r->info ) return false;
		if ( skip ) return true;
		if ( !r->arch.empty() && r->arch != "sim64" ) return false;
		auto deps = r->deps;
		std::sort(deps.begin(), deps.end(), [](const Dep& a, const Dep& b) { return a.name < b.name; });
		if ( reverse ) std::reverse(deps.begin(), deps.end());
		for ( auto& d : deps ) {
			auto h = have.find(d.name);
			if ( h != have.end() && !(h->second.version < Ver(d.min)) ) continue;
			if ( d.min.empty() ) {
				if ( plan.count(d.name) ) continue;
				if ( !index.count(d.name) ) return false;
				if ( !require(d.name, Ver(index[d.name])) ) return false;
			}
			else if ( !require(d.name, Ver(d.min)) ) return false;
		}
		return true;
	}
	bool solve(std::vector<Request> rq, const std::map<std::string, Restrict>& rs, bool force) {
		if ( reverse ) std::reverse(rq.begin(), rq.end());
		for ( auto& q : rq ) {
			std::string v = q.version.empty() ? (index.count(q.name) ? index[q.name] : "") : q.version;
			if ( v.empty() || !require(q.name, Ver(v)) ) return false;
			if ( !q.version.empty() ) force = true;
		}
		for ( auto& q : rq ) if ( !q.version.empty() && !(plan[q.name] == Ver(q.version)) ) return false;
		std::map<std::string, Ver> todo;
		for ( auto& p : plan ) {
			if ( !permitted(rs, p.first, p.second) ) return false;
			if ( p.first == PRODUCT_NAME ) return false;
			auto h = have.find(p.first);
			if ( !force && h != have.end() && !(h->second.version < p.second) ) continue;
			todo[p.first] = p.second;
		}
		for ( auto& t : todo ) {
			Release* r = release(t.first, t.second);
			if ( !r || r->tar ) return false;
			if ( skip ) continue;
			for ( auto& d : r->deps ) {
				Ver v; auto i = todo.find(d.name);
				if ( i != todo.end() ) v = i->second;
				else { auto h = have.find(d.name); if ( h == have.end() ) return false; v = h->second.version; }
				if ( v < Ver(d.min) || (!d.max.empty() && Ver(d.max) < v) ) return false;
			}
		}
		return true;
	}
};

// Modules changed by the command: each must hold a published release completely.
void checkModules(const Strings& args, const Result& r, std::set<std::string>& changed) {
	std::string failedAt = pkg::observed("unpack-failed"), unpacked = pkg::observed("unpacked");
	auto names = dirsOf(r.pre);
	for ( auto& n : dirsOf(r.post) ) names.insert(n);
	for ( auto& n : names ) {
		std::string dir = LIB + n + "/";
		auto a = filesOf(r.pre, dir), b = filesOf(r.post, dir);
		decided();
		if ( a == b ) {
			// nothing but the directory was made before the disk failed
			if ( b.empty() && failedAt.find(dir) != std::string::npos && r.status != 0 ) changed.insert(n);
			if ( b.empty() && r.crashed && unpacked.find(dir) != std::string::npos ) changed.insert(n);
			continue;
		}
		changed.insert(n);
		Mod* m = mod(n);
		bool good = false;
		if ( m ) for ( auto& rel : m->releases ) {
			if ( rel.hidden || rel.tar ) continue;
			// all of one release, besides files that were there before or came
			// with another release the same command had to install
			auto rest = b;
			bool all = true;
			for ( auto& f : content(*m, rel) ) {
				auto i = rest.find(f.first.substr(n.size() + 1));
				if ( i == rest.end() || i->second != f.second ) all = false; else rest.erase(i);
			}
			for ( auto& f : rest ) {
				bool known = a.count(f.first) && a[f.first] == f.second;
				for ( auto& other : m->releases ) if ( !other.hidden ) for ( auto& x : content(*m, other) ) known = known || (x.first == n + "/" + f.first && x.second == f.second);
				all = all && known;
			}
			good = good || all;
		}
		if ( good ) continue;
		// a module whose files could not all be written is reported, not undone
		bool interrupted = failedAt.find(dir) != std::string::npos || (r.crashed && unpacked.find(dir) != std::string::npos);
		if ( interrupted && (r.crashed || r.status != 0) ) { count("probe.unpack-interrupted"); continue; }
		std::string list;
		for ( auto& f : b ) list += "\n  " + f.first + ": " + f.second.substr(0, 60);
		deviation(r.faulted || r.crashed ? "K01" : "K03", "module-incomplete", show(args) + ": module " + n + " is neither as before nor a complete release" + list);
	}
}

void checkInstall(const Strings& args, const Result& r, const std::vector<Request>& rq, bool force, bool skip, bool upgrade) {
	checkAlive(args, r);
	checkDatabase(args, r, "");
	std::set<std::string> changed;
	checkModules(args, r, changed);
	checkUntouched(args, r, owner(r, "K01", "K03"), "other-files-changed", [&](const std::string& p) {
		if ( cacheFile(p) ) return true;
		for ( auto& c : changed ) if ( under(p, LIB + c + "/") ) return true;
		return false;
	});
	if ( r.crashed ) return;
	auto rs = restrictions(r.pre);
	auto had = installed(r.pre), have = installed(r.post);
	std::map<std::string, std::string> index;
	bool indexGood = knownIndex(r.pre, index);
	std::string own = r.faulted ? "K01" : "K03";
	if ( r.status == 0 ) {
		const char* cls = r.faulted ? "failure-not-reported" : "install-incomplete";
		for ( auto& q : rq ) {
			decided();
			auto h = have.find(q.name);
			if ( h == have.end() || q.name == PRODUCT_NAME ) deviation(own, cls, show(args) + ": reported success but " + q.name + " is not installed");
			if ( !q.version.empty() && !(h->second.version == Ver(q.version)) ) deviation(own, cls, show(args) + ": reported success but " + q.name + " is installed in version " + h->second.version.str());
			if ( q.version.empty() && index.count(q.name) && h->second.version < Ver(index[q.name]) ) deviation(own, cls, show(args) + ": reported success but " + q.name + " is still version " + h->second.version.str());
		}
		if ( upgrade ) for ( auto& h : had ) {
			if ( h.first == PRODUCT_NAME || !index.count(h.first) || !(h.second.version < Ver(index[h.first])) ) continue;
			bool wanted = rq.empty() && args.size() == 1;
			for ( size_t i = 1; i < args.size(); ++i ) if ( args[i] == h.first ) wanted = true;
			decided();
			if ( wanted && have[h.first].version < Ver(index[h.first]) && permitted(rs, h.first, Ver(index[h.first])) ) deviation(own, cls, show(args) + ": reported success but " + h.first + " is still version " + have[h.first].version.str());
		}
		count("probe.install-succeeded");
	}
	for ( auto& n : changed ) {
		auto h = have.find(n);
		if ( h == have.end() ) continue;
		if ( !had.count(n) || !(had[n].version == h->second.version) ) {
			decided();
			if ( !permitted(rs, n, h->second.version) ) deviation("K03", "restriction-ignored", show(args) + ": " + n + " was installed in version " + h->second.version.str() + ", which a restriction forbids");
		}
		if ( r.status != 0 || skip || upgrade ) continue;
		for ( auto& d : h->second.deps ) {
			auto i = have.find(d.name);
			decided();
			if ( i == have.end() ) deviation(own, r.faulted ? "failure-not-reported" : "dependency-missing", show(args) + ": reported success but " + n + " needs " + d.name + ", which is not installed");
			if ( i->second.version < Ver(d.min) || (!d.max.empty() && Ver(d.max) < i->second.version) )
				deviation(own, r.faulted ? "failure-not-reported" : "dependency-version", show(args) + ": reported success but " + n + " needs " + d.name + " " + d.min + ":" + d.max + " and " + i->second.version.str() + " is installed");
		}
	}
	// only what was asked for and what that may depend on changes
	if ( !upgrade ) {
		std::set<std::string> reach; Strings todo;
		for ( auto& q : rq ) todo.push_back(q.name);
		while ( !todo.empty() ) {
			std::string n = todo.back(); todo.pop_back();
			if ( !reach.insert(n).second ) continue;
			if ( Mod* m = mod(n) ) for ( auto& x : m->releases ) for ( auto& d : x.deps ) if ( !skip ) todo.push_back(d.name);
		}
		for ( auto& n : changed ) { decided(); if ( !reach.count(n) ) deviation("K03", "unrelated-module-changed", show(args) + ": module " + n + " was changed"); }
	}
	// does it have to succeed?
	bool must = indexGood && !r.faulted;
	std::vector<Request> want = rq;
	if ( upgrade ) {
		must = must && !anyMax && rs.empty();
		for ( auto& h : had ) if ( index.count(h.first) && h.second.version < Ver(index[h.first]) ) want.push_back({ h.first, "" });
	}
	bool possible = true;
	for ( int rev = 0; rev < 2; ++rev ) {
		std::vector<std::vector<Request>> sets;
		if ( upgrade ) for ( auto& w : want ) sets.push_back({ w }); else sets.push_back(want);
		for ( auto& s : sets ) { Resolver z(had, skip, rev); z.index = index; if ( !z.solve(s, rs, force) ) possible = false; }
	}
	decided();
	if ( must && possible && r.status != 0 ) deviation("K03", "possible-install-failed", show(args) + fmt(": failed with status %d although everything needed is available", r.status));
	if ( possible ) count("probe.install-possible"); else count("probe.install-impossible");
	if ( !possible && r.status != 0 && !r.faulted ) count("probe.impossible-refused");
	if ( r.status != 0 && !r.faulted && !upgrade && !changed.empty() ) {
		// what failed must then be a package, not the choice of versions
		bool tarBad = false;
		for ( auto& m : repo ) for ( auto& x : m.releases ) if ( x.tar || (skip && x.info) ) tarBad = true;
		decided();
		if ( !tarBad ) deviation("K03", "failed-install-changed-modules", show(args) + ": failed but changed module " + *changed.begin());
	}
}

// --- the other commands ------------------------------------------------------

void checkUpdate(const Strings& args, const Result& r) {
	checkAlive(args, r);
	checkDatabase(args, r, "");
	checkUntouched(args, r, owner(r, "K01", "K03"), "other-files-changed", cacheFile);
	if ( r.crashed ) return;
	decided();
	bool now = at(r.post, indexPath()) == pkg::server[REPO + "modules/index.json"].body && r.post.count(indexPath());
	if ( r.status == 0 && !now ) deviation(owner(r, "K01", "K03"), "failure-not-reported", show(args) + ": reported success but the cached index is not the one of the server");
	if ( r.status != 0 && !r.faulted ) deviation("K03", "update-failed", show(args) + fmt(": failed with status %d although the server answered", r.status));
}
void checkRestrict(const Strings& args, const Result& r) {
	checkAlive(args, r);
	Json::Value j; parse(at(r.pre, configPath()), j);
	if ( j["restrictions"].isObject() ) j["restrictions"].removeMember(args[1]);
	if ( args.size() > 2 ) {
		size_t k = args[2].find(':');
		std::string min = args[2].substr(0, k), max = k == std::string::npos ? "" : args[2].substr(k + 1);
		Json::Value v;
		if ( !min.empty() ) v["version_min"] = min;
		if ( !max.empty() ) v["version_max"] = max;
		j["restrictions"][args[1]] = v;
	}
	std::string want = Json::StyledWriter().write(j);
	checkDatabase(args, r, want);
	checkUntouched(args, r, "K02", "other-files-changed", cacheFile);
	if ( r.crashed ) return;
	decided();
	if ( r.status == 0 && !sameConfig(at(r.post, configPath()), want) ) deviation("K02", "failure-not-reported", show(args) + ": reported success but the restriction is not stored\n" + at(r.post, configPath()));
	if ( r.status != 0 && !r.faulted ) deviation("K02", "store-failed", show(args) + fmt(": failed with status %d without any fault", r.status));
}
void checkRemove(const Strings& args, const Result& r, const Strings& names, bool purge) {
	checkAlive(args, r);
	auto had = installed(r.pre), have = installed(r.post);
	Json::Value j; parse(at(r.pre, configPath()), j);
	Json::Value now; parse(at(r.post, configPath()), now);
	// restrictions may disappear one by one
	Json::Value want = j;
	if ( purge ) for ( auto& n : names ) if ( want["restrictions"].isObject() && !(now["restrictions"].isObject() && now["restrictions"].isMember(n)) ) want["restrictions"].removeMember(n);
	if ( now.isObject() && !sameConfig(Json::StyledWriter().write(want), at(r.post, configPath())) )
		deviation("K04", "other-records-changed", show(args) + ": changed more of the configuration than it was asked to\n--- old\n" + at(r.pre, configPath()) + "\n--- now\n" + at(r.post, configPath()));
	checkDatabase(args, r, purge ? Json::StyledWriter().write(want) : "");
	std::set<std::string> dirs;
	for ( auto& n : names ) if ( had.count(n) && !had[n].dir.empty() ) dirs.insert(had[n].dir);
	checkUntouched(args, r, "K04", "other-files-removed", [&](const std::string& p) {
		if ( under(p, LIB + ".slang/cache/") || p == LIB + ".slang/config.json" || p == LIB + ".slang/config.json.part" ) return true;
		if ( under(p, LIB + ".slang/") && p.back() != '/' && !under(p, LIB + ".slang/apps/") && !r.pre.count(p) ) return true;	// temporary files of its own
		if ( under(p, LIB + ".slang/apps/") && at(r.pre, p).compare(0, 5, "LINK ") == 0 ) for ( auto& d : dirs ) if ( under(at(r.pre, p).substr(5), d) ) return true;
		for ( auto& d : dirs ) if ( under(p, d) ) return true;
		return false;
	});
	bool all = true;
	std::set<std::string> once(names.begin(), names.end());
	for ( auto& n : once ) {
		decided();
		bool was = had.count(n) && !had[n].dir.empty();
		if ( !was ) { all = false; continue; }
		bool gone = filesOf(r.post, had[n].dir).empty() && !r.post.count(had[n].dir);
		if ( gone ) count("probe.module-removed");
		if ( gone && !r.crashed && !r.faulted && r.status == 0 ) for ( auto& x : r.pre ) {
			if ( !under(x.first, LIB + ".slang/apps/") || x.second != at(r.post, x.first) || x.second.compare(0, 5, "LINK ") || !under(x.second.substr(5), had[n].dir) ) continue;
			deviation("K04", "link-left", show(args) + ": reported success but left " + x.first + ", which refers to the removed module");
		}
		if ( !r.crashed && r.status == 0 && !gone ) deviation("K04", "failure-not-reported", show(args) + ": reported success but " + had[n].dir + " is still there");
		bool whole = filesOf(r.pre, had[n].dir) == filesOf(r.post, had[n].dir);
		bool wasRestricted = j["restrictions"].isObject() && j["restrictions"].isMember(n), isRestricted = now["restrictions"].isObject() && now["restrictions"].isMember(n);
		if ( purge && whole && wasRestricted && !isRestricted ) deviation("K04", "removal-recorded", show(args) + ": " + n + " is still installed but its restrictions are gone");
		if ( purge && !r.crashed && r.status == 0 && isRestricted ) deviation("K04", "failure-not-reported", show(args) + ": reported success but the restrictions of " + n + " are still stored");
		if ( whole ) count("probe.removal-failed");
	}
	if ( r.crashed ) return;
	decided();
	if ( all && once.size() == names.size() && !names.empty() && r.status != 0 && !r.faulted ) deviation("K04", "removal-refused", show(args) + fmt(": failed with status %d although all modules are installed", r.status));
	if ( !all && r.status == 0 && !purge ) deviation("K04", "failure-not-reported", show(args) + ": reported success for modules that are not installed");
}
void checkRead(const Strings& args, const Result& r) {
	checkAlive(args, r);
	checkDatabase(args, r, "");
	checkUntouched(args, r, "K02", "other-files-changed", cacheFile);
	decided();
}

// prepares a directory of its own, possibly several times
void checkLocalLibrary(const Strings& args, const Result& r) {
	checkAlive(args, r);
	const std::string dir = "/simfs/fresh/";
	checkUntouched(args, r, "K02", "other-files-changed", [&](const std::string& p) { return under(p, dir + ".slang/"); });
	std::string c = dir + ".slang/config.json";
	decided();
	if ( r.pre.count(c) && at(r.pre, c) != at(r.post, c) ) deviation("K02", "configuration-damaged", show(args) + ": changed an existing configuration\n" + at(r.post, c));
	Json::Value j;
	if ( r.post.count(c) && !(parse(at(r.post, c), j) && j["repository"].isObject() && j["repository"]["url"].isString()) ) deviation("K02", "configuration-damaged", show(args) + ": left an incomplete configuration\n" + at(r.post, c));
	if ( r.crashed ) return;
	decided();
	if ( r.status == 0 && !r.post.count(c) ) deviation("K02", "failure-not-reported", show(args) + ": reported success but there is no configuration");
	if ( r.status != 0 && !r.faulted ) deviation("K02", "store-failed", show(args) + fmt(": failed with status %d without any fault", r.status));
}

uint32_t sumOf(const std::string& s) { uint32_t h = 2166136261u; for ( unsigned char c : s ) h = (h ^ c) * 16777619u; return h; }

void checkPush(const Strings& args, const Result& r, const Strings& dirs, bool push) {
	checkAlive(args, r);
	checkDatabase(args, r, "");
	std::set<std::string> artifacts; bool all = true;
	std::string uploads = pkg::observed("uploads");
	for ( auto& d : dirs ) {
		Json::Value j;
		if ( !parse(at(r.pre, WORK + d + "/module.json"), j) ) { all = false; continue; }
		std::string stem = text(j["name_short"]) + "_" + text(j["version"]);
		artifacts.insert(WORK + stem + ".json"); artifacts.insert(WORK + stem + ".tar.gz");
		std::vector<std::pair<std::string, std::string>> f;
		for ( auto& x : filesOf(r.pre, WORK + d + "/") ) f.push_back({ d + "/" + x.first, x.second });
		std::string tar = pkg::pack(f), js = at(r.pre, WORK + d + "/module.json");
		decided();
		if ( r.crashed || r.status != 0 || (!push && dirs.size() > 1) ) continue;
		if ( push ) {
			for ( auto& e : { std::make_pair(stem + ".json", js), std::make_pair(stem + ".tar.gz", tar) } ) {
				std::string line = REPO + "upload/\t" + e.first + "\t" + fmt("%08x", sumOf(e.second)) + "\n";
				if ( uploads.find(line) == std::string::npos ) deviation("K05", "failure-not-reported", show(args) + ": reported success but the server did not receive " + e.first + " with the right content\nreceived:\n" + uploads);
			}
			count("probe.push-succeeded");
		}
		else {
			if ( at(r.post, WORK + stem + ".json") != js ) deviation("K05", "failure-not-reported", show(args) + ": reported success but " + stem + ".json is missing or wrong");
			if ( at(r.post, WORK + stem + ".tar.gz") != tar ) deviation("K05", "failure-not-reported", show(args) + ": reported success but " + stem + ".tar.gz is missing or wrong");
		}
	}
	checkUntouched(args, r, "K05", "other-files-changed", [&](const std::string& p) {
		if ( cacheFile(p) ) return true;
		return artifacts.count(p) && (!push || r.faulted || r.crashed || !r.post.count(p));
	});
	if ( r.crashed ) return;
	decided();
	if ( dirs.empty() || (!push && dirs.size() > 1) ) {
		if ( r.status == 0 ) deviation("K05", "failure-not-reported", show(args) + ": reported success although it did not do what it was asked to");
		return;
	}
	if ( !all && r.status == 0 ) deviation("K05", "failure-not-reported", show(args) + ": reported success for a directory that is not a module");
	if ( all && r.status != 0 && !r.faulted ) deviation("K05", "push-failed", show(args) + fmt(": failed with status %d without any fault", r.status));
}

// --- generation --------------------------------------------------------------

const char* NAMES[] = { "Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta" };
const char* const KINDS[][5] = { { "1.0.0", "1.1.0", "1.2.0", "2.0.0", "10.0.0" }, { "1.0.9", "1.0.10", "1.9.0", "1.10.0", "2.0.0" }, { "1.0.0-alpha", "1.0.0-beta", "1.0.0", "1.1.0-alpha", "1.1.0" } };
const char* const* VERSIONS = KINDS[0];
const char* ODD[] = { "my mod", "a;b", "star*", "$HOME", "q'uote", "d\"q", "back\\s", "x;rm -r *", "(p)", "a&b", "Alpha2", "Al", "#h", "tab\tx", "`id`", "$(rm -r Beta)", "-rf", ">out", "!x", "~", "[ab]", "sp ace;rm -r Beta" };

std::string pickVersion(const Mod* m) {
	if ( !m || m->releases.empty() || draw(12) == 11 ) return VERSIONS[draw(5)];
	return m->releases[draw(static_cast<uint32_t>(m->releases.size()))].version;
}
void makeRepository() {
	bool k3 = PROP == "K03";
	int n = range(1, 6);
	for ( int i = 0; i < n; ++i ) {
		Mod m; m.name = NAMES[i];
		uint32_t mask = 1 + draw(31);
		for ( int v = 0; v < 5; ++v ) if ( mask >> v & 1 ) { Release r; r.version = VERSIONS[v]; m.releases.push_back(r); }
		m.inIndex = draw(20) != 19;
		repo.push_back(m);
	}
	bool cyclic = draw(3) == 2;
	for ( size_t i = 0; i < repo.size(); ++i ) {
		bool first = true;
		for ( auto& r : repo[i].releases ) {
			int deps = static_cast<int>(drawWeighted(k3 ? std::vector<uint32_t>{ 4, 4, 3, 1 } : std::vector<uint32_t>{ 6, 3, 1, 0 }));
			std::set<std::string> used;
			for ( int d = 0; d < deps; ++d ) {
				Dep x;
				uint32_t w = draw(40);
				if ( w == 39 ) x.name = "Nowhere";
				else if ( w == 38 ) { x.name = PRODUCT_NAME; x.min = draw(2) ? "0.1.0" : "99.0.0"; }
				else {
					size_t t = draw(static_cast<uint32_t>(repo.size()));
					if ( !cyclic ) { if ( i == 0 ) continue; t = t % i; }
					x.name = repo[t].name;
					if ( draw(4) ) x.min = pickVersion(&repo[t]);
					if ( draw(k3 ? 8 : 30) == 1 ) { x.max = pickVersion(&repo[t]); anyMax = true; }
				}
				if ( !used.insert(x.name).second ) continue;
				r.deps.push_back(x);
			}
			r.external = draw(5) == 4;
			if ( draw(40) == 39 ) r.arch = "other64"; else if ( draw(6) == 5 ) r.arch = "sim64";
			if ( draw(5) == 4 ) r.links.push_back("tool.sh");
			if ( draw(10) == 9 ) r.directory = draw(2) ? "elsewhere" : NAMES[draw(6)];
			if ( draw(2) ) r.extra.push_back("sub/part.os");
			if ( draw(4) == 3 ) r.extra.push_back("only-" + r.version + ".txt");
			uint32_t damage = draw(k3 ? 25 : 60);
			if ( damage == 1 ) { static const int kinds[] = { 1, 2, 3, 4, 5, 7 }; r.info = kinds[draw(6)]; } else if ( damage == 2 ) r.info = 9;
			damage = draw(PROP == "K01" ? 15 : 50);
			if ( damage == 1 ) r.tar = 1 + static_cast<int>(draw(3)); else if ( damage == 2 ) r.tar = 9;
			if ( !first && draw(5) == 4 ) r.hidden = true;
			first = false;
		}
	}
	if ( draw(k3 ? 6 : 20) == (k3 ? 5u : 19u) ) {
		// many modules: each needs the one before, some also others before it
		int many = range(3, 14) + static_cast<int>(draw(4) == 3) * 15;
		size_t base = repo.size();
		bool wide = draw(3) == 2;
		for ( int i = 0; i < many; ++i ) {
			Mod m; m.name = fmt("Chain%d", i); m.inIndex = true;
			Release r; r.version = VERSIONS[draw(5)];
			for ( int k = i - 1; k >= 0 && (k == i - 1 || (wide && i == many - 1)); --k ) {
				Dep x; x.name = repo[base + k].name;
				if ( draw(2) ) x.min = repo[base + k].releases[0].version;
				r.deps.push_back(x);
			}
			if ( draw(12) == 11 ) r.links.push_back("tool.sh");
			m.releases.push_back(r);
			repo.push_back(m);
		}
		count("repositories-with-many-modules", 1);
	}
	indexDamaged = draw(40) == 39;
}
std::string someName() {
	if ( draw(25) == 24 ) return "Nowhere";
	return repo[draw(static_cast<uint32_t>(repo.size()))].name;
}
void putModule(const std::string& dir, const Mod& m, const Release& r) {
	for ( auto& f : content(m, r) ) putFile(LIB + dir + f.first.substr(m.name.size()), f.second);
	for ( auto& l : r.links ) putFile(LIB + ".slang/apps/" + m.name + "-" + l, "LINK " + LIB + dir + "/" + l);
}
std::vector<std::string> everInstalled;

void makeDisk() {
	putDir("/simfs"); putDir("/simfs/work"); putDir("/simfs/home"); putDir("/simfs/other");
	putFile("/simfs/home/.profile", "profile\n"); putFile("/simfs/work/notes.txt", "notes\n"); putFile("/simfs/other/data", "data\n");
	static const char* libs[] = { "/simfs/lib2/", "/simfs/my lib/", "/simfs/l;b/", "/simfs/l$HOME b*/" };
	LIB = libs[PROP == "K04" ? drawWeighted({ 4, 2, 1, 1 }) : drawWeighted({ 9, 1, 0, 0 })];
	bool local = draw(6) == 5;
	W.cwd = local ? LIB.substr(0, LIB.size() - 1) : "/simfs/work";
	setenv("SLANG_LIBRARY", local ? "/simfs/other" : (LIB.substr(0, LIB.size() - draw(2)) + (draw(2) ? ":/simfs/other" : "")).c_str(), 1);
	std::string d;
	for ( size_t i = 1; i < LIB.size(); ++i ) if ( LIB[i] == '/' ) { d = LIB.substr(0, i); if ( !W.files.count(d) ) putDir(d); }
	for ( const char* x : { ".slang", ".slang/apps", ".slang/cache", ".slang/cache/modules", ".slang/cache/repositories" } ) putDir(LIB + x);
	putFile(LIB + "README", "library\n");
	Json::Value j;
	j["repository"]["authentication"] = "Bearer"; j["repository"]["authorization"] = "token-1"; j["repository"]["name"] = "main";
	j["repository"]["url"] = draw(2) ? REPO : REPO.substr(0, REPO.size() - 1);
	j["restrictions"] = Json::Value();
	int n = static_cast<int>(draw(3));
	for ( int i = 0; i < n; ++i ) {
		std::string m = someName(); Json::Value v;
		static const char* alike[] = { "Alpha2", "Al", "alpha", "BetaMax", "Bet", "DeltaX" };
		if ( PROP == "K04" && draw(3) == 2 ) m = alike[draw(6)];
		uint32_t k = draw(3);
		if ( k != 1 ) v["version_max"] = VERSIONS[draw(5)];
		if ( k != 0 ) v["version_min"] = VERSIONS[draw(PROP == "K03" ? 5 : 2)];
		j["restrictions"][m] = v;
	}
	if ( PROP == "K02" || PROP == "K04" ) j["proxy"] = "none";
	putFile(configPath(), Json::StyledWriter().write(j));
	publish();
	if ( draw(4) ) putFile(indexPath(), draw(30) == 29 ? damaged(indexText(), 2) : indexText());
	for ( auto& m : repo ) if ( draw(5) < 2 ) {
		Release& r = m.releases[draw(static_cast<uint32_t>(m.releases.size()))];
		if ( r.hidden ) continue;
		putModule(m.name, m, r);
		everInstalled.push_back(m.name);
		if ( draw(3) == 2 ) putFile(LIB + m.name + "/local.cfg", "settings\n");
	}
	int odd = PROP == "K04" ? range(0, 4) : static_cast<int>(draw(2));
	for ( int i = 0; i < odd; ++i ) {
		Mod m; m.name = ODD[draw(PROP == "K04" ? 22 : 1)];
		Release r; r.version = VERSIONS[draw(5)];
		if ( draw(3) == 2 ) r.extra.push_back("deep/er/file.os");
		if ( draw(3) == 2 ) r.links.push_back("tool.sh");
		static const char* where[] = { "elsewhere", "Alpha", "..", "", ".slang", "/simfs/home" };
		if ( draw(5) == 4 ) r.directory = where[draw(6)];
		std::string dir = m.name;
		if ( draw(4) == 3 && r.links.empty() ) dir = fmt("dir %d", i);
		if ( W.files.count(LIB + dir) || mod(m.name) ) continue;
		bool dup = false; for ( auto& e : everInstalled ) dup = dup || e == m.name;
		if ( dup ) continue;
		putModule(dir, m, r);
		everInstalled.push_back(m.name);
	}
	if ( draw(8) == 7 ) { putFile(LIB + "broken/module.json", draw(2) ? "{ \"name_short\": " : ""); putFile(LIB + "broken/code.os", "x\n"); }
	if ( draw(4) == 3 ) putFile(LIB + "plain/file.txt", "no module\n");
}

Plan drawPlan(const std::string& cmd) {
	Plan p;
	W.faults = FaultPlan(); pkg::faults = pkg::Faults();
	bool faulty = PROP == "K03" ? draw(8) == 7 : draw(3) != 0;
	if ( !faulty ) return p;
	p.any = true;
	W.faults.budget = 1 + static_cast<long>(draw(3));
	auto rate = [&]() { static const uint32_t r[] = { 100, 30, 300, 700 }; return r[draw(4)]; };
	bool k2 = PROP == "K02", k4 = PROP == "K04", k5 = PROP == "K05";
	bool transfers = cmd == "install" || cmd == "update" || cmd == "upgrade" || cmd == "push";
	uint32_t what = draw(8);
	if ( transfers && !k2 && (what < 4 || PROP == "K01") ) {
		uint32_t w = draw(5);
		if ( w == 0 || w == 4 ) pkg::faults.cut = rate();
		if ( w == 1 || w == 4 ) pkg::faults.connect = rate();
		if ( w == 2 ) pkg::faults.http = rate();
		if ( w == 3 ) { if ( draw(2) ) pkg::faults.unpack = rate(); else pkg::faults.initFail = rate(); }
	}
	if ( k4 || cmd == "remove" || cmd == "purge" ) pkg::faults.rm = rate();
	if ( k5 ) { if ( draw(2) ) pkg::faults.copy = rate(); else pkg::faults.pack = rate(); }
	if ( what == 7 ) pkg::faults.shell = rate();
	uint32_t disk = draw(k2 ? 5 : 8);
	if ( disk == 0 ) W.faults.diskFree = static_cast<long>(draw(3000));
	if ( disk == 1 ) W.faults.writeFail = rate();
	if ( disk == 2 ) W.faults.closeFail = rate();
	if ( disk == 3 ) W.faults.renameFail = rate();
	if ( (k2 || PROP == "K01") && draw(3) == 2 && cmd != "remove" && cmd != "purge" ) { if ( draw(2) && cmd != "upgrade" ) W.faults.openFail = rate() / 2; else W.faults.readFail = rate() / 2; }
	W.faults.writeShort = draw(2) * 200;
	if ( draw(k2 ? 2 : 5) == 1 && !k5 ) p.crashAt = 1 + static_cast<int>(draw(cmd == "restrict" ? 6 : 40));
	return p;
}

void run() {
	PROP = S->prop;
	W.logOpens = false;
	W.shuffleDirs = true;
	W.systemCall = [](const std::string& c) { return pkg::shell(c); };
	std::string out;
	W.onOutput = [&](int fd, const std::string& b) { (void)fd; out += b; size_t k; while ( (k = out.find('\n')) != std::string::npos ) { sim::log("    %s", out.substr(0, k).c_str()); out.erase(0, k + 1); } };
	static const size_t buffers[] = { 0, 1, 16, 64 };
	streamBuffer = buffers[draw(4)];
	VERSIONS = KINDS[draw(3)];
	makeRepository();
	makeDisk();
	putDir("/simfs/fresh");
	if ( PROP == "K05" ) {
		for ( int i = 0; i < 3; ++i ) {
			Mod m; m.name = NAMES[i]; Release r; r.version = VERSIONS[draw(5)];
			if ( draw(2) ) r.extra.push_back("sub/x.os");
			std::string dir = i == 2 ? "src dir" : m.name;
			for ( auto& f : content(m, r) ) putFile(WORK + dir + f.first.substr(m.name.size()), f.second);
		}
		W.cwd = "/simfs/work";
		setenv("SLANG_LIBRARY", LIB.c_str(), 1);
	}
	sim::log("library %s, working directory %s", LIB.c_str(), W.cwd.c_str());
	for ( auto& m : repo ) for ( auto& r : m.releases ) {
		std::string d; for ( auto& x : r.deps ) d += " " + x.name + "[" + x.min + ":" + x.max + "]";
		sim::log("server: %s %s%s%s%s%s%s", m.name.c_str(), r.version.c_str(), d.empty() ? "" : " needs", d.c_str(), r.hidden ? " (not yet published)" : "", r.info ? fmt(" information damaged (%d)", r.info).c_str() : "", r.tar ? fmt(" package damaged (%d)", r.tar).c_str() : "");
	}
	for ( auto& i : installed(snapshot()) ) sim::log("installed: %s %s in %s", i.second.name.c_str(), i.second.version.str().c_str(), i.second.dir.c_str());

	int steps = range(1, 5);
	for ( int s = 0; s < steps; ++s ) {
		if ( draw(4) == 3 ) { for ( auto& m : repo ) for ( auto& r : m.releases ) if ( r.hidden && draw(2) ) { r.hidden = false; sim::log("server: publishes %s %s", m.name.c_str(), r.version.c_str()); } publish(); }
		std::vector<uint32_t> w = { 8, 3, 3, 1, 1, 1, 1, 0, 0 };	// install update upgrade remove purge restrict read push prepare
		if ( PROP == "K02" ) w = { 2, 3, 1, 1, 3, 6, 1, 0, 1 };
		if ( PROP == "K03" ) w = { 10, 1, 2, 1, 0, 2, 1 };
		if ( PROP == "K04" ) w = { 1, 0, 0, 6, 5, 2, 0 };
		uint32_t kind = PROP == "K05" ? 7 : drawWeighted(w);
		Strings args;
		if ( kind == 0 ) {
			std::vector<Request> rq; bool force = draw(8) == 7, skip = draw(8) == 7;
			int n = 1 + static_cast<int>(draw(5) == 4) + static_cast<int>(draw(8) == 7);
			args = { "install" };
			std::set<std::string> used;
			for ( int i = 0; i < n; ++i ) {
				Request q; q.name = someName();
				if ( !used.insert(q.name).second ) continue;
				if ( draw(4) == 3 ) q.version = pickVersion(mod(q.name));
				rq.push_back(q);
				args.push_back(q.version.empty() ? q.name : q.name + ":" + q.version);
			}
			if ( force ) args.push_back("--force");
			if ( skip ) args.push_back("--skip-dependencies");
			Plan p = drawPlan("install");
			Result r = command(args, p);
			checkInstall(args, r, rq, force, skip, false);
		}
		else if ( kind == 1 ) { args = { "update" }; Plan p = drawPlan("update"); Result r = command(args, p); checkUpdate(args, r); }
		else if ( kind == 2 ) {
			args = { "upgrade" };
			if ( draw(3) == 2 ) args.push_back(someName());
			Plan p = drawPlan("upgrade");
			Result r = command(args, p);
			checkInstall(args, r, {}, false, false, true);
		}
		else if ( kind == 3 || kind == 4 ) {
			static const char* bad[] = { "", ".", "..", "*", "/", "Alpha/", "alpha", "Slang", "../lib2", "Nowhere", "Alpha Beta", ".slang", "broken", "plain", "README" };
			args = { kind == 3 ? "remove" : "purge" };
			Strings names;
			int n = 1 + static_cast<int>(draw(4) == 3) + static_cast<int>(draw(8) == 7);
			for ( int i = 0; i < n; ++i ) {
				std::string x;
				if ( everInstalled.empty() || draw(5) == 4 ) x = draw(2) ? bad[draw(15)] : someName();
				else x = everInstalled[draw(static_cast<uint32_t>(everInstalled.size()))];
				names.push_back(x); args.push_back(x);
			}
			Plan p = drawPlan(args[0]);
			Result r = command(args, p);
			checkRemove(args, r, names, kind == 4);
		}
		else if ( kind == 5 ) {
			args = { "restrict", PROP == "K04" && !everInstalled.empty() ? everInstalled[draw(static_cast<uint32_t>(everInstalled.size()))] : someName() };
			if ( draw(4) ) { std::string a = draw(2) ? VERSIONS[draw(5)] : "", b = draw(2) ? VERSIONS[draw(5)] : ""; args.push_back(a + ":" + b); }
			Plan p = drawPlan("restrict");
			Result r = command(args, p);
			checkRestrict(args, r);
		}
		else if ( kind == 6 ) {
			static const char* cmds[] = { "list", "search", "info" };
			args = { cmds[draw(3)] };
			if ( args[0] != "list" ) args.push_back(someName());
			Plan p = drawPlan(args[0]);
			Result r = command(args, p);
			checkRead(args, r);
		}
		else if ( kind == 8 ) {
			std::string cwd = W.cwd;
			W.cwd = "/simfs/fresh";
			args = { "--locallibrary" };
			Plan p = drawPlan("restrict");
			Result r = command(args, p);
			checkLocalLibrary(args, r);
			W.cwd = cwd;
		}
		else {
			if ( draw(3) == 2 ) { std::string f = WORK + NAMES[draw(2)] + "/notes.os"; sim::log("the user changes %s", f.c_str()); putFile(f, fmt("change %d\n", s)); }
			bool push = draw(4) != 3;
			args = { push ? "push" : "create" };
			Strings dirs;
			static const char* d[] = { "Alpha", "Beta", "src dir", "missing" };
			int n = push ? 1 + static_cast<int>(draw(3) == 2) : 1 + static_cast<int>(draw(8) == 7);
			if ( draw(20) == 19 ) n = 0;
			for ( int i = 0; i < n; ++i ) { std::string x = d[drawWeighted({ 4, 3, 2, 1 })]; if ( std::find(dirs.begin(), dirs.end(), x) != dirs.end() ) continue; dirs.push_back(x); args.push_back(x); }
			Plan p = drawPlan("push");
			Result r = command(args, p);
			checkPush(args, r, dirs, push);
		}
	}
	held();
}

Register r1("K01", run), r2("K02", run), r3("K03", run), r4("K04", run), r5("K05", run);

}
