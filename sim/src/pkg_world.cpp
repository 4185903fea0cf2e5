#include "pkg_world.h"
#include <cerrno>
#include <cstring>
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
using namespace sim;

namespace pkg {

std::map<std::string, Response> server;
Faults faults;

void observe(const std::string& key, const std::string& line) {
	std::string p = "/obs/" + key;
	putFile(p, (hasFile(p) ? getFile(p) : std::string()) + line + "\n");
}
std::string observed(const std::string& key) { std::string p = "/obs/" + key; return hasFile(p) ? getFile(p) : ""; }
void forget() { for ( auto i = W.files.lower_bound("/obs"); i != W.files.end() && i->first.compare(0, 4, "/obs") == 0; ) i = W.files.erase(i); putDir("/obs"); }

static bool inject(uint32_t rate, const char* kind) {
	if ( !fault(rate, kind) ) return false;
	observe("faults", kind);
	return true;
}
static void before(const char* what, const std::string& path) { if ( W.beforeCall ) W.beforeCall(what, path); }

// --- archives ----------------------------------------------------------------

static uint32_t sum(const std::string& s) { uint32_t h = 2166136261u; for ( unsigned char c : s ) h = (h ^ c) * 16777619u; return h; }

std::string pack(const std::vector<std::pair<std::string, std::string>>& files) {
	std::string s = "SIMTAR\n";
	for ( auto& f : files ) s += fmt("F %s\n%zu\n", f.first.c_str(), f.second.size()) + f.second + "\n";
	return s + fmt("E %08x\n", sum(s));
}
bool unpack(const std::string& a, std::vector<std::pair<std::string, std::string>>& files) {
	if ( a.compare(0, 7, "SIMTAR\n") != 0 ) return false;
	size_t i = 7;
	for ( ;; ) {
		if ( i + 2 > a.size() ) return false;
		size_t e = a.find('\n', i);
		if ( e == std::string::npos ) return false;
		if ( a[i] == 'E' ) return a.substr(i + 2, e - i - 2) == fmt("%08x", sum(a.substr(0, i))) && e + 1 == a.size();
		if ( a[i] != 'F' ) return false;
		std::string path = a.substr(i + 2, e - i - 2);
		size_t n = a.find('\n', e + 1);
		if ( n == std::string::npos ) return false;
		size_t len = strtoul(a.substr(e + 1, n - e - 1).c_str(), nullptr, 10);
		if ( n + 1 + len + 1 > a.size() ) return false;
		files.push_back({ path, a.substr(n + 1, len) });
		i = n + 1 + len + 1;
	}
}

// --- shell -------------------------------------------------------------------

static void children(const std::string& dir, std::vector<std::string>& out) {
	std::string pre = dir == "/" ? dir : dir + "/";
	for ( auto i = W.files.lower_bound(pre); i != W.files.end() && i->first.compare(0, pre.size(), pre) == 0; ++i ) out.push_back(i->first);
}
static bool isDir(const std::string& p) { auto i = W.files.find(p); return i != W.files.end() && i->second->dir; }
static std::string parent(const std::string& p) { size_t k = p.rfind('/'); return k == 0 || k == std::string::npos ? "/" : p.substr(0, k); }
static std::string base(const std::string& p) { return p.substr(p.rfind('/') + 1); }
// writes a file; false: no space or no such directory
static bool store(const std::string& p, const std::string& data) {
	if ( !isDir(parent(p)) || isDir(p) ) return false;
	before("store", p);
	size_t old = hasFile(p) ? getFile(p).size() : 0;
	size_t grow = data.size() > old ? data.size() - old : 0;
	if ( W.faults.diskFree >= 0 && grow > static_cast<size_t>(W.faults.diskFree) ) {
		count("fault.disk-full"); sim::log("  ! fault: disk full"); observe("faults", "disk-full");
		putFile(p, data.substr(0, old + static_cast<size_t>(W.faults.diskFree)));
		W.faults.diskFree = 0;
		return false;
	}
	if ( W.faults.diskFree >= 0 ) W.faults.diskFree -= static_cast<long>(grow);
	putFile(p, data);
	return true;
}
static bool removeOne(const std::string& p) {
	before("rm", p);
	if ( inject(faults.rm, "rm-error") ) return false;
	W.files.erase(p);
	observe("removed", p);
	return true;
}

struct Args { std::string flags; std::vector<std::string> words; };
static Args split(const std::vector<std::string>& v, size_t from = 1) {
	Args a; bool end = false;
	for ( size_t i = from; i < v.size(); ++i ) {
		if ( !end && v[i] == "--" ) end = true;
		else if ( !end && v[i].size() > 1 && v[i][0] == '-' ) a.flags += v[i][1] == '-' ? "" : v[i].substr(1);
		else a.words.push_back(v[i]);
	}
	return a;
}
static bool has(const Args& a, char c) { return a.flags.find(c) != std::string::npos; }

static int cmdRm(const std::vector<std::string>& v) {
	Args a = split(v);
	bool rec = has(a, 'r') || has(a, 'R'), force = has(a, 'f');
	if ( a.words.empty() ) return force ? 0 : 1;
	int st = 0;
	for ( auto& w : a.words ) {
		std::string p = w.empty() ? "" : normalise(w);
		std::string b = w; while ( b.size() > 1 && b.back() == '/' ) b.pop_back();
		b = b.substr(b.rfind('/') == std::string::npos ? 0 : b.rfind('/') + 1);
		if ( w.empty() || !W.files.count(p) ) { if ( !force ) st = 1; continue; }
		if ( b == "." || b == ".." || p == "/" ) { st = 1; continue; }
		if ( isDir(p) ) {
			if ( !rec ) { st = 1; continue; }
			std::vector<std::string> c; children(p, c);
			bool left = false;
			for ( auto i = c.rbegin(); i != c.rend(); ++i ) {
				if ( isDir(*i) ) { std::vector<std::string> k; children(*i, k); if ( !k.empty() ) { left = true; continue; } }
				if ( !removeOne(*i) ) left = true;
			}
			if ( left || !removeOne(p) ) st = 1;
		}
		else if ( !removeOne(p) ) st = 1;
	}
	return st;
}
static int cmdMkdir(const std::vector<std::string>& v) {
	Args a = split(v);
	int st = a.words.empty() ? 1 : 0;
	for ( auto& w : a.words ) {
		std::string p = normalise(w);
		if ( W.files.count(p) ) { if ( !has(a, 'p') || !isDir(p) ) st = 1; continue; }
		if ( !has(a, 'p') && !isDir(parent(p)) ) { st = 1; continue; }
		before("mkdir", p);
		std::string q = "";
		for ( size_t i = 1; i <= p.size(); ++i ) if ( i == p.size() || p[i] == '/' ) { q = p.substr(0, i); if ( !W.files.count(q) ) putDir(q); }
	}
	return st;
}
static int copyTree(const std::string& from, const std::string& to) {
	if ( !isDir(from) ) return store(to, getFile(from)) ? 0 : 1;
	if ( !W.files.count(to) ) putDir(to);
	int st = 0;
	std::vector<std::string> c; children(from, c);
	for ( auto& p : c ) {
		std::string t = to + p.substr(from.size());
		if ( isDir(p) ) { if ( !W.files.count(t) ) putDir(t); }
		else if ( !store(t, getFile(p)) ) st = 1;
	}
	return st;
}
static int cmdCp(const std::vector<std::string>& v, bool move) {
	Args a = split(v);
	if ( a.words.size() < 2 ) return 1;
	std::string to = normalise(a.words.back());
	if ( inject(faults.copy, move ? "mv-error" : "cp-error") ) return 1;
	int st = 0;
	for ( size_t i = 0; i + 1 < a.words.size(); ++i ) {
		std::string from = normalise(a.words[i]);
		if ( !W.files.count(from) ) { st = 1; continue; }
		bool contents = a.words[i].size() > 1 && a.words[i].substr(a.words[i].size() - 2) == "/.";
		std::string t = isDir(to) && !contents ? to + "/" + base(from) : to;
		if ( isDir(from) && !move && !has(a, 'r') && !has(a, 'R') && !has(a, 'a') ) { st = 1; continue; }
		if ( move ) { if ( isDir(t) && !isDir(from) ) { st = 1; continue; } if ( rename(from.c_str(), t.c_str()) != 0 ) st = 1; }
		else st |= copyTree(from, t);
	}
	return st;
}
static int cmdTar(const std::vector<std::string>& v) {
	char mode = 0; std::string file, dir = W.cwd; std::vector<std::string> words;
	for ( size_t i = 1; i < v.size(); ++i ) {
		if ( v[i].compare(0, 2, "--") == 0 ) continue;
		bool dash = !v[i].empty() && v[i][0] == '-';
		if ( dash && v[i] == "-C" && i + 1 < v.size() ) { dir = normalise(v[++i]); continue; }
		if ( dash || i == 1 ) {
			for ( char c : v[i] ) {
				if ( c == 'x' || c == 'c' || c == 't' ) mode = c;
				if ( c == 'f' && i + 1 < v.size() ) { file = v[i + 1]; }
			}
			if ( v[i].find('f') != std::string::npos ) ++i;
			continue;
		}
		words.push_back(v[i]);
	}
	if ( file.empty() ) return 2;
	std::string p = normalise(file);
	if ( mode == 'c' ) {
		std::vector<std::pair<std::string, std::string>> f;
		if ( words.empty() ) return 2;
		for ( auto& w : words ) {
			std::string d = normalise(w[0] == '/' ? w : dir + "/" + w);
			if ( !W.files.count(d) ) { store(p, pack(f)); return 2; }
			std::string top = w; while ( top.size() > 1 && top.back() == '/' ) top.pop_back();
			while ( !top.empty() && top[0] == '/' ) top = top.substr(1);
			if ( !isDir(d) ) f.push_back({ top, getFile(d) });
			std::vector<std::string> c; children(d, c);
			for ( auto& x : c ) if ( !isDir(x) ) f.push_back({ top + x.substr(d.size()), getFile(x) });
		}
		std::string a = pack(f);
		if ( inject(faults.pack, "pack-error") ) { store(p, a.substr(0, draw(static_cast<uint32_t>(a.size())))); return 2; }
		return store(p, a) ? 0 : 2;
	}
	if ( !hasFile(p) ) return 2;
	std::vector<std::pair<std::string, std::string>> f;
	bool good = unpack(getFile(p), f);
	if ( mode == 't' ) return good ? 0 : 2;
	if ( mode != 'x' || !isDir(dir) ) return 2;
	for ( auto& x : f ) {
		std::string t = normalise(dir + "/" + x.first);
		std::vector<std::string> need;
		for ( std::string d = parent(t); !W.files.count(d) && d != "/"; d = parent(d) ) need.push_back(d);
		for ( auto i = need.rbegin(); i != need.rend(); ++i ) putDir(*i);
		observe("unpacked", t);
		if ( inject(faults.unpack, "unpack-error") || !store(t, x.second) ) { observe("unpack-failed", t); return 2; }
	}
	return good ? 0 : 2;
}
static int cmdAddLink(const std::vector<std::string>& v) {
	if ( v.size() < 3 ) return 1;
	std::string a = normalise(v[1]), b = normalise(v[2]);
	if ( isDir(b) ) b += "/" + base(a);
	if ( !isDir(parent(b)) ) return 1;
	before("link", b);
	putFile(b, "LINK " + a);
	return 0;
}
static int cmdRemoveLinks(const std::vector<std::string>& v) {
	if ( v.size() < 3 ) return 1;
	std::string a = normalise(v[1]), b = normalise(v[2]);
	std::vector<std::string> c; children(a, c);
	for ( auto& x : c ) {
		if ( isDir(x) ) continue;
		std::string t = getFile(x);
		if ( t.compare(0, 5, "LINK ") == 0 && (t.substr(5) == b || t.compare(5, b.size() + 1, b + "/") == 0) ) { before("unlink", x); W.files.erase(x); observe("removed", x); }
	}
	return 0;
}

static bool match(const char* p, const char* s) {
	if ( !*p ) return !*s;
	if ( *p == '*' ) { for ( ;; ++s ) { if ( match(p + 1, s) ) return true; if ( !*s ) return false; } }
	if ( !*s ) return false;
	if ( *p == '?' ) return match(p + 1, s + 1);
	if ( *p == '\\' && p[1] ) ++p;
	return *p == *s && match(p + 1, s + 1);
}
static void glob(const std::string& pattern, const std::string& plain, std::vector<std::string>& out) {
	// one path component at a time
	std::vector<std::string> level = { pattern[0] == '/' ? "/" : "" };
	size_t i = pattern[0] == '/' ? 1 : 0;
	bool slash = pattern.back() == '/';
	while ( i < pattern.size() ) {
		size_t e = pattern.find('/', i);
		if ( e == std::string::npos ) e = pattern.size();
		std::string part = pattern.substr(i, e - i);
		i = e + 1;
		if ( part.empty() ) continue;
		std::vector<std::string> next;
		for ( auto& l : level ) {
			std::vector<std::string> c; children(normalise(l.empty() ? "." : l), c);
			std::set<std::string> names;
			size_t cut = normalise(l.empty() ? "." : l).size(); if ( cut > 1 ) ++cut;
			for ( auto& x : c ) { std::string r = x.substr(cut); if ( r.find('/') == std::string::npos ) names.insert(r); }
			for ( auto& n : names ) if ( (n[0] != '.' || part[0] == '.') && match(part.c_str(), n.c_str()) ) next.push_back(l + (l.empty() || l.back() == '/' ? "" : "/") + n);
		}
		level = next;
	}
	if ( level.empty() ) { out.push_back(plain); return; }
	for ( auto& l : level ) out.push_back(l + (slash ? "/" : ""));
}

static int run(const std::string& text, int depth);

static int command(std::vector<std::string> v) {
	while ( !v.empty() && v[0].find('=') != std::string::npos && v[0][0] != '/' ) v.erase(v.begin());
	if ( v.empty() ) return 0;
	std::string name = base(v[0]);
	if ( name == "rm" ) return cmdRm(v);
	if ( name == "unlink" || name == "rmdir" ) { std::vector<std::string> w = { "rm" }; if ( name == "rmdir" ) { std::vector<std::string> c; if ( v.size() > 1 ) children(normalise(v[1]), c); if ( !c.empty() ) return 1; w.push_back("-r"); } w.insert(w.end(), v.begin() + 1, v.end()); return cmdRm(w); }
	if ( name == "mkdir" ) return cmdMkdir(v);
	if ( name == "cp" ) return cmdCp(v, false);
	if ( name == "mv" ) return cmdCp(v, true);
	if ( name == "tar" ) return cmdTar(v);
	if ( name == "addLink.sh" ) return cmdAddLink(v);
	if ( name == "removeLinks.sh" ) return cmdRemoveLinks(v);
	if ( name == "touch" ) { for ( size_t i = 1; i < v.size(); ++i ) if ( !W.files.count(normalise(v[i])) && !store(normalise(v[i]), "") ) return 1; return 0; }
	if ( name == "true" || name == ":" || name == "echo" || name == "sync" ) return 0;
	if ( name == "false" ) return 1;
	if ( name == "test" || name == "[" ) {
		if ( v.size() < 3 ) return 1;
		std::string p = normalise(v[2]);
		if ( v[1] == "-d" ) return isDir(p) ? 0 : 1;
		if ( v[1] == "-f" ) return hasFile(p) && !isDir(p) ? 0 : 1;
		if ( v[1] == "-e" ) return W.files.count(p) ? 0 : 1;
		return 1;
	}
	if ( name == "sh" || name == "bash" ) { for ( size_t i = 1; i + 1 < v.size(); ++i ) if ( v[i] == "-c" ) return run(v[i + 1], 1); return 1; }
	observe("unknown-command", name);
	return 127;
}

static int run(const std::string& s, int depth) {
	if ( depth > 8 ) return 2;
	int status = 0; bool skip = false;
	std::vector<std::string> words; std::string redirect;
	std::string word, pattern; bool have = false, globbing = false, nextRedirect = false;
	auto endWord = [&]() {
		if ( !have ) return;
		if ( nextRedirect ) { redirect = word; nextRedirect = false; }
		else if ( globbing ) glob(pattern, word, words);
		else words.push_back(word);
		word.clear(); pattern.clear(); have = globbing = false;
	};
	auto add = [&](char c, bool q) { word += c; if ( q && strchr("*?\\", c) ) pattern += '\\'; pattern += c; have = true; if ( !q && (c == '*' || c == '?') ) globbing = true; };
	auto endCommand = [&](const std::string& op) {
		endWord();
		if ( !words.empty() && !skip ) {
			if ( !redirect.empty() && redirect != "/dev/null" && !store(normalise(redirect), "") ) status = 1;
			else status = command(words);
		}
		words.clear(); redirect.clear();
		skip = (op == "&&" && status != 0) || (op == "||" && status == 0);
	};
	auto substitute = [&](size_t& i) {		// at '$'
		if ( i + 1 < s.size() && s[i + 1] == '(' ) {
			int d = 0; size_t j = i + 1;
			for ( ; j < s.size(); ++j ) { if ( s[j] == '(' ) ++d; if ( s[j] == ')' && --d == 0 ) break; }
			run(s.substr(i + 2, j - i - 2), depth + 1);
			i = j; return;
		}
		size_t j = i + 1; bool br = j < s.size() && s[j] == '{';
		if ( br ) ++j;
		std::string n; while ( j < s.size() && (isalnum(static_cast<unsigned char>(s[j])) || s[j] == '_') ) n += s[j++];
		if ( br && j < s.size() && s[j] == '}' ) ++j;
		if ( n.empty() ) { add('$', true); return; }
		std::string val = n == "HOME" ? "/simfs/home" : "";
		for ( char c : val ) add(c, true);
		i = j - 1;
	};
	for ( size_t i = 0; i < s.size(); ++i ) {
		char c = s[i];
		if ( c == '\'' ) { size_t e = s.find('\'', i + 1); have = true; if ( e == std::string::npos ) return 2; for ( size_t k = i + 1; k < e; ++k ) add(s[k], true); i = e; }
		else if ( c == '"' ) {
			have = true; ++i;
			while ( i < s.size() && s[i] != '"' ) {
				if ( s[i] == '\\' && i + 1 < s.size() && strchr("\"\\$`", s[i + 1]) ) { add(s[i + 1], true); i += 2; continue; }
				if ( s[i] == '$' ) { substitute(i); ++i; continue; }
				if ( s[i] == '`' ) { size_t e = s.find('`', i + 1); if ( e == std::string::npos ) return 2; run(s.substr(i + 1, e - i - 1), depth + 1); i = e + 1; continue; }
				add(s[i], true); ++i;
			}
			if ( i >= s.size() ) return 2;
		}
		else if ( c == '\\' && i + 1 < s.size() ) add(s[++i], true);
		else if ( c == '$' ) substitute(i);
		else if ( c == '`' ) { size_t e = s.find('`', i + 1); if ( e == std::string::npos ) return 2; run(s.substr(i + 1, e - i - 1), depth + 1); i = e; }
		else if ( c == ' ' || c == '\t' ) endWord();
		else if ( c == '#' && !have ) { i = s.find('\n', i); if ( i == std::string::npos ) break; --i; }
		else if ( c == ';' || c == '\n' ) endCommand(";");
		else if ( c == '&' ) {
			if ( i + 1 < s.size() && s[i + 1] == '&' ) { ++i; endCommand("&&"); }
			else if ( i + 1 < s.size() && s[i + 1] == '>' ) { ++i; endWord(); nextRedirect = true; }
			else endCommand(";");
		}
		else if ( c == '|' ) { if ( i + 1 < s.size() && s[i + 1] == '|' ) { ++i; endCommand("||"); } else endCommand(";"); }
		else if ( c == '>' ) {
			if ( have && (word == "2" || word == "1") ) { word.clear(); pattern.clear(); have = false; }
			endWord();
			while ( i + 1 < s.size() && s[i + 1] == '>' ) ++i;
			if ( i + 1 < s.size() && s[i + 1] == '&' ) { i += 2; }
			else nextRedirect = true;
		}
		else if ( c == '<' ) { endWord(); nextRedirect = true; }
		else if ( c == '(' || c == ')' ) return 2;		// syntax error
		else if ( c == '~' && !have ) { for ( char h : std::string("/simfs/home") ) add(h, true); }
		else add(c, false);
	}
	endCommand("");
	return status;
}

int shell(const std::string& cmd) {
	sim::log("  system: %s", cmd.c_str());
	if ( inject(faults.shell, "system-fork") ) { errno = EAGAIN; return -1; }
	int st = run(cmd, 0);
	if ( st ) { sim::log("    -> %d", st); }
	note(mix(0x51, static_cast<uint64_t>(st) * 31 + sum(cmd)));
	return st << 8;
}

// --- curl --------------------------------------------------------------------

struct Handle {
	std::string url, userpwd;
	bool failOnError = false, upload = false, post = false;
	size_t (*write)(char*, size_t, size_t, void*) = nullptr;
	void* writeData = nullptr;
	void* readData = nullptr;
	size_t (*read)(char*, size_t, size_t, void*) = nullptr;
	curl_mime* mime = nullptr;
	std::vector<std::string> headers;
	long status = 0;
};
struct Part { std::string name, file, type; };
struct Mime { std::vector<Part*> parts; };

static std::string canonical(const std::string& u) {
	size_t k = u.find("://");
	std::string r = k == std::string::npos ? "" : u.substr(0, k + 3);
	for ( size_t i = r.size(); i < u.size(); ++i ) if ( !(u[i] == '/' && !r.empty() && r.back() == '/' && r.size() > (k == std::string::npos ? 0 : k + 3)) ) r += u[i];
	return r;
}

static CURLcode body(Handle* h, const std::string& data, size_t upTo) {
	size_t i = 0;
	while ( i < upTo ) {
		size_t n = std::min<size_t>(upTo - i, 1 + draw(static_cast<uint32_t>(std::min<size_t>(upTo - i, 16384))));
		if ( draw(3) == 0 ) n = upTo - i;
		std::string chunk = data.substr(i, n);
		size_t r = h->write ? h->write(&chunk[0], 1, n, h->writeData) : fwrite(chunk.data(), 1, n, h->writeData ? static_cast<FILE*>(h->writeData) : stdout);
		if ( r != n ) return CURLE_WRITE_ERROR;
		i += n;
	}
	return CURLE_OK;
}

static CURLcode perform(Handle* h) {
	std::string url = canonical(h->url);
	bool spared = !faults.spare.empty() && url.size() >= faults.spare.size() && url.compare(url.size() - faults.spare.size(), std::string::npos, faults.spare) == 0;
	h->status = 0;
	if ( !spared && inject(faults.connect, "connect") ) {
		static const CURLcode codes[] = { CURLE_COULDNT_CONNECT, CURLE_COULDNT_RESOLVE_HOST, CURLE_OPERATION_TIMEDOUT, CURLE_SSL_CONNECT_ERROR, CURLE_COULDNT_RESOLVE_PROXY, CURLE_PEER_FAILED_VERIFICATION, CURLE_UNSUPPORTED_PROTOCOL };
		return codes[draw(7)];
	}
	if ( h->upload || h->mime || h->post ) {
		std::string name, type, data;
		if ( h->mime ) {
			for ( Part* p : reinterpret_cast<Mime*>(h->mime)->parts ) {
				std::string path = normalise(p->file);
				if ( !hasFile(path) ) return CURLE_READ_ERROR;
				name = p->file; type = p->type; data = getFile(path);
			}
		}
		else if ( h->readData ) {
			char buf[512]; size_t n;
			while ( (n = h->read ? h->read(buf, 1, sizeof buf, h->readData) : fread(buf, 1, sizeof buf, static_cast<FILE*>(h->readData))) > 0 && n <= sizeof buf ) data.append(buf, n);
		}
		if ( !spared && inject(faults.cut, "upload-cut") ) {
			static const CURLcode codes[] = { CURLE_OPERATION_TIMEDOUT, CURLE_SEND_ERROR, CURLE_GOT_NOTHING, CURLE_RECV_ERROR, CURLE_ABORTED_BY_CALLBACK, CURLE_SEND_FAIL_REWIND, CURLE_READ_ERROR };
			return codes[draw(7)];
		}
		if ( !spared && inject(faults.http, "upload-refused") ) {
			static const int st[] = { 401, 413, 500, 503 };
			h->status = st[draw(4)];
			if ( h->failOnError ) return CURLE_HTTP_RETURNED_ERROR;
			return body(h, "refused\n", 0);
		}
		h->status = 200;
		observe("uploads", url + "\t" + name + "\t" + fmt("%08x", sum(data)));
		return CURLE_OK;
	}
	auto it = server.find(url);
	Response r = it == server.end() ? Response{ 404, "<html>404 Not Found</html>\n" } : it->second;
	bool failed = false;
	if ( !spared && it != server.end() && inject(faults.http, "http-status") ) {
		static const int st[] = { 500, 503, 403, 404 };
		r = Response{ st[draw(4)], "{ \"error\": \"try again later\" }\n" };
	}
	h->status = r.status;
	sim::log("  GET %s -> %d", url.c_str(), r.status);
	note(mix(0x61, static_cast<uint64_t>(r.status) * 31 + sum(url)));
	if ( r.status >= 400 && h->failOnError ) return CURLE_HTTP_RETURNED_ERROR;
	if ( r.status >= 400 ) { observe("http-error", url); return body(h, r.body, r.body.size()); }
	if ( !spared && inject(faults.cut, "transfer-cut") ) {
		static const CURLcode codes[] = { CURLE_PARTIAL_FILE, CURLE_RECV_ERROR, CURLE_OPERATION_TIMEDOUT, CURLE_GOT_NOTHING, CURLE_BAD_CONTENT_ENCODING, CURLE_HTTP2_STREAM };
		CURLcode e = codes[draw(6)];
		size_t n = r.body.empty() || e == CURLE_GOT_NOTHING ? 0 : draw(static_cast<uint32_t>(r.body.size()));
		CURLcode w = body(h, r.body, n);
		return w == CURLE_OK ? e : w;
	}
	CURLcode c = body(h, r.body, r.body.size());
	if ( c == CURLE_OK ) observe("received", url);
	return c;
}

}

using pkg::Handle;

extern "C" {

CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL* curl_easy_init(void) { if ( pkg::inject(pkg::faults.initFail, "curl-init") ) return nullptr; return reinterpret_cast<CURL*>(new Handle); }
void curl_easy_cleanup(CURL* c) { delete reinterpret_cast<Handle*>(c); }
void curl_easy_reset(CURL* c) { if ( c ) *reinterpret_cast<Handle*>(c) = Handle(); }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
	auto* h = reinterpret_cast<Handle*>(c);
	if ( !h ) return CURLE_BAD_FUNCTION_ARGUMENT;
	va_list ap; va_start(ap, o);
	switch ( o ) {
		case CURLOPT_URL: { const char* s = va_arg(ap, const char*); h->url = s ? s : ""; break; }
		case CURLOPT_WRITEFUNCTION: h->write = va_arg(ap, size_t (*)(char*, size_t, size_t, void*)); break;
		case CURLOPT_WRITEDATA: h->writeData = va_arg(ap, void*); break;
		case CURLOPT_READFUNCTION: h->read = va_arg(ap, size_t (*)(char*, size_t, size_t, void*)); break;
		case CURLOPT_READDATA: h->readData = va_arg(ap, void*); break;
		case CURLOPT_FAILONERROR: h->failOnError = va_arg(ap, long) != 0; break;
		case CURLOPT_UPLOAD: h->upload = va_arg(ap, long) != 0; break;
		case CURLOPT_POST: h->post = va_arg(ap, long) != 0; break;
		case CURLOPT_MIMEPOST: h->mime = va_arg(ap, curl_mime*); break;
		default: break;
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
	auto* h = reinterpret_cast<Handle*>(c);
	if ( !h ) return CURLE_BAD_FUNCTION_ARGUMENT;
	va_list ap; va_start(ap, i);
	if ( i == CURLINFO_RESPONSE_CODE ) *va_arg(ap, long*) = h->status;
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* c) {
	sim::tick();
	auto* h = reinterpret_cast<Handle*>(c);
	if ( !h ) return CURLE_BAD_FUNCTION_ARGUMENT;
	return pkg::perform(h);
}
const char* curl_easy_strerror(CURLcode c) { return c == CURLE_OK ? "No error" : "simulated failure"; }
struct curl_slist* curl_slist_append(struct curl_slist* l, const char* s) {
	auto* n = static_cast<curl_slist*>(malloc(sizeof(curl_slist)));
	n->data = strdup(s); n->next = nullptr;
	if ( !l ) return n;
	auto* i = l; while ( i->next ) i = i->next;
	i->next = n;
	return l;
}
void curl_slist_free_all(struct curl_slist* l) { while ( l ) { auto* n = l->next; free(l->data); free(l); l = n; } }
curl_mime* curl_mime_init(CURL*) { return reinterpret_cast<curl_mime*>(new pkg::Mime); }
void curl_mime_free(curl_mime* m) { delete reinterpret_cast<pkg::Mime*>(m); }
curl_mimepart* curl_mime_addpart(curl_mime* m) { auto* p = new pkg::Part; reinterpret_cast<pkg::Mime*>(m)->parts.push_back(p); return reinterpret_cast<curl_mimepart*>(p); }
CURLcode curl_mime_name(curl_mimepart* p, const char* s) { reinterpret_cast<pkg::Part*>(p)->name = s; return CURLE_OK; }
CURLcode curl_mime_filename(curl_mimepart*, const char*) { return CURLE_OK; }
CURLcode curl_mime_filedata(curl_mimepart* p, const char* s) { reinterpret_cast<pkg::Part*>(p)->file = s; return hasFile(normalise(s)) ? CURLE_OK : CURLE_READ_ERROR; }
CURLcode curl_mime_type(curl_mimepart* p, const char* s) { reinterpret_cast<pkg::Part*>(p)->type = s; return CURLE_OK; }
CURLcode curl_mime_data(curl_mimepart*, const char*, size_t) { return CURLE_OK; }

}
