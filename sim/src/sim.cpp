#include "sim.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

Shared* S = nullptr;

std::map<std::string, Property>& properties() { static std::map<std::string, Property> p; return p; }

// splitmix64 / xorshift
uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t rng() {
	uint64_t s1 = S->rng[0]; const uint64_t s0 = S->rng[1];
	S->rng[0] = s0; s1 ^= s1 << 23;
	S->rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return S->rng[1] + s0;
}
static uint32_t record(uint32_t v) {
	if (S->nchoices >= MAX_CHOICES) discard("choice sequence too long");
	S->choices[S->nchoices++] = v;
	return v;
}
static bool nextReplay(uint32_t n, uint32_t& v) {
	if (!S->replaying) return false;
	v = S->nchoices < S->replayLen ? S->replay[S->nchoices] : 0;
	if (n && v >= n) v = v % n;
	return true;
}
uint32_t draw(uint32_t n) {
	if (n <= 1) return 0;
	uint32_t v;
	if (!nextReplay(n, v)) v = static_cast<uint32_t>((rng() >> 11) % n);
	return record(v);
}
uint32_t drawWeighted(const std::vector<uint32_t>& w) {
	uint64_t total = 0;
	for (auto x : w) total += x;
	if (total == 0) return 0;
	uint32_t v;
	if (!nextReplay(static_cast<uint32_t>(w.size()), v)) {
		uint64_t r = (rng() >> 11) % total;
		v = 0;
		while (r >= w[v]) { r -= w[v]; ++v; }
	} else if (w[v] == 0) {
		// a shrunk value may hit an impossible alternative: take the next possible one
		for (size_t i = 0; i < w.size(); ++i) { v = static_cast<uint32_t>((v + 1) % w.size()); if (w[v]) break; }
	}
	return record(v);
}
bool chance(uint32_t num, uint32_t den) {
	if (num == 0) return false;
	uint32_t v;
	if (!nextReplay(2, v)) v = ((rng() >> 11) % den) < num ? 1 : 0;
	return record(v) != 0;
}
int range(int lo, int hi) {
	if (hi <= lo) return lo;
	return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1)));
}

std::string bulk(char first, int letters) {
	static const int sizes[] = { 240, 500, 1010, 2030, 4080, 8170, 16370 };
	int n = sizes[draw(7)] + range(0, 40);
	std::string s;
	for (int i = 0; i < n; ++i) s += static_cast<char>(first + (i + i / letters) % letters);
	return s;
}

void logs(const std::string& s) {
	if (!S) return;
	size_t n = s.size();
	if (S->traceLen + n + 2 > MAX_TRACE) {
		S->verdict = DISCARD; snprintf(S->vclass, sizeof S->vclass, "trace-overflow");
		realExit(0);
	}
	memcpy(S->trace + S->traceLen, s.data(), n);
	S->trace[S->traceLen + n] = '\n';
	S->traceLen += static_cast<uint32_t>(n + 1);
}
void log(const char* f, ...) {
	char buf[4096];
	va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	if (n < 0) n = 0;
	if (n >= static_cast<int>(sizeof buf)) n = sizeof buf - 1;
	logs(std::string(buf, static_cast<size_t>(n)));
}
std::string traceText() { return std::string(S->trace, S->traceLen); }
void count(const char* name, uint64_t n) {
	for (uint32_t i = 0; i < S->ncounters; ++i)
		if (!strcmp(S->counters[i].name, name)) { S->counters[i].value += n; return; }
	if (S->ncounters >= MAX_COUNTERS) return;
	auto& c = S->counters[S->ncounters++];
	snprintf(c.name, sizeof c.name, "%s", name);
	c.value = n;
}
void note(uint64_t h) { S->stateHash = mix(S->stateHash, h); }

static void setVerdict(Verdict v, const std::string& cls, const std::string& msg) {
	S->verdict = v;
	snprintf(S->vclass, sizeof S->vclass, "%s", cls.c_str());
	snprintf(S->vmsg, sizeof S->vmsg, "%s", msg.c_str());
}
void violation(const std::string& cls, const std::string& msg) { setVerdict(VIOLATION, cls, msg); realExit(0); }
void held() { setVerdict(HELD, "", ""); realExit(0); }
void discard(const std::string& why) { setVerdict(DISCARD, why, ""); realExit(0); }
void harnessError(const std::string& why) { setVerdict(HARNESS_ERROR, why, ""); realExit(0); }

void realExit(int code) { syscall(SYS_exit_group, code); for (;;) {} }
int realFork() {
	static int (*real)() = reinterpret_cast<int (*)()>(dlsym(RTLD_NEXT, "fork"));
	return real();
}
int realWaitpid(int pid, int* status, int options) {
	return static_cast<int>(::syscall(SYS_wait4, pid, status, options, nullptr));
}

std::string fmt(const char* f, ...) {
	char buf[8192];
	va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	if (n < 0) n = 0;
	if (n < static_cast<int>(sizeof buf)) return std::string(buf, static_cast<size_t>(n));
	std::string s(static_cast<size_t>(n) + 1, '\0');
	va_start(ap, f); vsnprintf(&s[0], s.size(), f, ap); va_end(ap);
	s.resize(static_cast<size_t>(n));
	return s;
}
std::string quote(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += static_cast<char>(c);
	}
	return o + "\"";
}

// --- worker ----------------------------------------------------------------

void enterSimulation();		// interpose.cpp
void preloadLibrary();

static void resetShared() {
	S->verdict = RUNNING; S->vclass[0] = S->vmsg[0] = 0;
	S->nchoices = S->traceLen = S->ncounters = 0;
	S->virtualNanos = S->syscalls = S->evalUnits = 0; S->stateHash = 0;
	S->procCount = 0; S->current = 0; S->shipLen = 0;
	memset(S->procs, 0, sizeof S->procs);
	memset(const_cast<int*>(S->wakeups), 0, sizeof S->wakeups);
}

static uint64_t fnv(const char* p, size_t n, uint64_t h = 1469598103934665603ull) {
	for (size_t i = 0; i < n; ++i) { h ^= static_cast<unsigned char>(p[i]); h *= 1099511628211ull; }
	return h;
}

struct Outcome { int verdict; std::string cls, msg; uint64_t hash; };

// The zygote is forked before anything else happens and never changes its own
// memory, so every run starts from the same heap and stack contents: even a
// program that reads freed memory behaves the same in every repetition.
static int toZygote = -1, fromZygote = -1;

static void zygoteRun() {
	char name[sizeof S->prop];
	memcpy(name, S->prop, sizeof name);
	auto it = properties().find(name);
	if (it == properties().end()) realExit(3);
	const Property& prop = it->second;
	int pid = realFork();
	if (pid < 0) { S->runError = errno; return; }
	if (pid == 0) {
		rlimit rl; rl.rlim_cur = prop.cpuSeconds; rl.rlim_max = prop.cpuSeconds + 1; setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		rl.rlim_cur = rl.rlim_max = 2ull << 30; setrlimit(RLIMIT_AS, &rl);
		rl.rlim_cur = rl.rlim_max = 16ull << 20; setrlimit(RLIMIT_FSIZE, &rl);
		setpgid(0, 0);
		enterSimulation();
		prop.run();
		harnessError("run ended without a verdict");
	}
	// wall clock guard (only trips if the simulated program sleeps in the kernel)
	int status = 0; bool timeout = false;
	int pfd = static_cast<int>(syscall(SYS_pidfd_open, pid, 0));
	if (pfd >= 0) {
		struct pollfd p = { pfd, POLLIN, 0 };
		struct timespec ts = { 60, 0 };
		if (syscall(SYS_ppoll, &p, 1, &ts, nullptr, 0) == 0) timeout = true;
		syscall(SYS_close, pfd);
	}
	if (timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }
	while (realWaitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	kill(-pid, SIGKILL);	// processes a simulated program left behind
	S->runStatus = status; S->runTimeout = timeout; S->runError = 0;
}

static void startZygote() {
	int a[2], b[2];
	if (pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
	int pid = realFork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		syscall(SYS_close, a[1]); syscall(SYS_close, b[0]);
		preloadLibrary();
		char c;
		for (;;) {
			long n = syscall(SYS_read, a[0], &c, 1);
			if (n < 0 && errno == EINTR) continue;
			if (n != 1) realExit(0);
			zygoteRun();
			syscall(SYS_write, b[1], &c, 1);
		}
	}
	close(a[0]); close(b[1]);
	toZygote = a[1]; fromZygote = b[0];
}

// Executes one run in a fresh child. Random if list == nullptr, else replay.
static Outcome executeRun(const std::string& id, const Property&, uint64_t seed, uint64_t index, const std::vector<uint32_t>* list) {
	resetShared();
	S->replaying = list != nullptr;
	S->replayLen = 0;
	if (list) {
		S->replayLen = std::min<size_t>(list->size(), MAX_CHOICES);
		memcpy(S->replay, list->data(), S->replayLen * sizeof(uint32_t));
	}
	uint64_t h = fnv(id.data(), id.size());
	S->rng[0] = mix(mix(seed, h), index * 2 + 1);
	S->rng[1] = mix(S->rng[0], 77);
	snprintf(S->prop, sizeof S->prop, "%s", id.c_str());
	char c = 'r'; S->runError = -1;
	if (write(toZygote, &c, 1) != 1) { perror("zygote"); exit(3); }
	long got;
	while ((got = read(fromZygote, &c, 1)) < 0 && errno == EINTR) {}
	if (got != 1 || S->runError) { fprintf(stderr, "zygote failed (%d)\n", S->runError); exit(3); }
	int status = S->runStatus; bool timeout = S->runTimeout;
	Outcome o;
	o.verdict = S->verdict; o.cls = S->vclass; o.msg = S->vmsg;
	if (timeout) { o.verdict = HARNESS_ERROR; o.cls = "wall clock limit"; }
	else if (WIFSIGNALED(status) && S->verdict != VIOLATION) {
		int sg = WTERMSIG(status);
		if (sg == SIGXCPU || sg == SIGKILL) { o.verdict = VIOLATION; o.cls = "hang"; o.msg = "the program did not terminate within the processor time limit"; }
		else { o.verdict = VIOLATION; o.cls = fmt("crash-signal-%d", sg); o.msg = fmt("the program was killed by signal %d (%s)", sg, strsignal(sg)); }
	}
	else if (o.verdict == RUNNING) { o.verdict = HARNESS_ERROR; o.cls = fmt("child ended with status 0x%x and no verdict", status); }
	o.hash = fnv(reinterpret_cast<const char*>(S->choices), S->nchoices * sizeof(uint32_t));
	o.hash = fnv(S->trace, S->traceLen, o.hash);
	o.hash = fnv(o.cls.data(), o.cls.size(), o.hash);
	return o;
}

static const char* verdictName(int v) {
	switch (v) { case HELD: return "held"; case VIOLATION: return "violation"; case DISCARD: return "discard"; default: return "error"; }
}

static std::string lineTail(size_t max) {
	std::string t = traceText();
	if (t.size() > max) t = t.substr(0, max / 2) + "\n...(cut)...\n" + t.substr(t.size() - max / 2);
	return t;
}

static void emit(FILE* out, uint64_t index, const Outcome& o, bool withTrace) {
	fprintf(out, "{\"i\":%llu,\"v\":\"%s\",\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"state\":\"%016llx\",\"nchoices\":%u,\"nanos\":%llu,\"calls\":%llu,\"units\":%llu,\"counters\":{",
		static_cast<unsigned long long>(index), verdictName(o.verdict), quote(o.cls).c_str(), quote(o.msg).c_str(),
		static_cast<unsigned long long>(o.hash), static_cast<unsigned long long>(S->stateHash), S->nchoices,
		static_cast<unsigned long long>(S->virtualNanos), static_cast<unsigned long long>(S->syscalls), static_cast<unsigned long long>(S->evalUnits));
	for (uint32_t i = 0; i < S->ncounters; ++i)
		fprintf(out, "%s%s:%llu", i ? "," : "", quote(S->counters[i].name).c_str(), static_cast<unsigned long long>(S->counters[i].value));
	fprintf(out, "}");
	if (withTrace) {
		fprintf(out, ",\"choices\":[");
		for (uint32_t i = 0; i < S->nchoices; ++i) fprintf(out, "%s%u", i ? "," : "", S->choices[i]);
		fprintf(out, "],\"trace\":%s", quote(lineTail(60000)).c_str());
	}
	fprintf(out, "}\n");
	fflush(out);
}

static std::vector<uint32_t> readList(const char* file) {
	std::vector<uint32_t> v;
	FILE* f = fopen(file, "r");
	if (!f) { perror(file); exit(3); }
	unsigned x;
	while (fscanf(f, "%u", &x) == 1) v.push_back(x);
	fclose(f);
	return v;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }

// Delta debugging on the choice list: delete spans, zero spans, lower values,
// as long as the same class of violation remains.
static std::vector<uint32_t> minimise(const std::string& id, const Property& prop, std::vector<uint32_t> best, const std::string& cls, double budget, unsigned& tries) {
	double end = now() + budget;
	auto fails = [&](const std::vector<uint32_t>& cand, std::vector<uint32_t>& used) {
		++tries;
		Outcome o = executeRun(id, prop, 0, 0, &cand);
		if (o.verdict == VIOLATION && o.cls == cls) {
			used.assign(S->choices, S->choices + S->nchoices);
			while (!used.empty() && used.back() == 0) used.pop_back();
			return true;
		}
		return false;
	};
	auto smaller = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
		if (a.size() != b.size()) return a.size() < b.size();
		return a < b;
	};
	std::vector<uint32_t> used;
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t span = std::max<size_t>(1, best.size() / 2); span >= 1; span /= 2) {
			for (size_t i = 0; i + span <= best.size() && now() < end; ) {
				std::vector<uint32_t> c(best.begin(), best.begin() + static_cast<long>(i));
				c.insert(c.end(), best.begin() + static_cast<long>(i + span), best.end());
				if (fails(c, used) && smaller(used, best)) { best = used; progress = true; }
				else i += std::max<size_t>(1, span / 2);
			}
			if (span == 1) break;
		}
		for (size_t span = std::max<size_t>(1, best.size() / 4); span >= 1; span /= 2) {
			for (size_t i = 0; i + span <= best.size() && now() < end; i += span) {
				bool any = false;
				std::vector<uint32_t> c = best;
				for (size_t k = i; k < i + span; ++k) { if (c[k]) any = true; c[k] = 0; }
				if (any && fails(c, used) && smaller(used, best)) { best = used; progress = true; }
			}
			if (span == 1) break;
		}
		for (size_t i = 0; i < best.size() && now() < end; ++i) {
			for (uint32_t v : { 1u, best[i] / 2, best[i] - 1 }) {
				if (i >= best.size() || best[i] == 0 || v >= best[i]) continue;
				std::vector<uint32_t> c = best; c[i] = v;
				if (fails(c, used) && smaller(used, best)) { best = used; progress = true; }
			}
		}
	}
	return best;
}

}

int main(int argc, char** argv) {
	using namespace sim;
	// Stage 1 re-executes the program with a fixed address space layout, argument
	// vector and environment; the real arguments travel through an inherited file.
	if (argc != 1 || strcmp(argv[0], "sim")) {
		int p = personality(0xffffffff);
		if (p == -1 || personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) == -1) { perror("personality"); return 3; }
		int m = memfd_create("args", 0);
		for (int i = 1; i < argc; ++i) if (write(m, argv[i], strlen(argv[i]) + 1) < 0) { perror("args"); return 3; }
		if (m < 0 || dup2(m, 99) != 99) { perror("args"); return 3; }
		if (m != 99) close(m);
		char name[] = "sim", tz[] = "TZ=UTC", lc[] = "LC_ALL=C", home[] = "HOME=/simfs/home";
		char* nargv[] = { name, nullptr };
		char* nenv[] = { tz, lc, home, nullptr };
		execve("/proc/self/exe", nargv, nenv);
		perror("execve");
		return 3;
	}
	S = static_cast<Shared*>(mmap(reinterpret_cast<void*>(0x600000000000ull), sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0));
	if (S == MAP_FAILED) { perror("mmap"); return 3; }
	signal(SIGPIPE, SIG_IGN);
	mallopt(M_PERTURB, 0x5a);
	startZygote();
	std::vector<std::string> args;
	{
		std::string all; char buf[4096]; long n; off_t at = 0;
		while ((n = pread(99, buf, sizeof buf, at)) > 0) { all.append(buf, static_cast<size_t>(n)); at += n; }
		close(99);
		for (size_t i = 0; i < all.size(); ) { args.emplace_back(all.c_str() + i); i += args.back().size() + 1; }
	}
	std::string prop, list, mode = "run", dump;
	uint64_t seed = 1, from = 0, to = 1, stride = 1; double budget = 20, limit = 1e9; bool trace = false;
	for (size_t i = 0; i < args.size(); ++i) {
		std::string a = args[i];
		auto next = [&]() -> const char* { if (i + 1 >= args.size()) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return args[++i].c_str(); };
		if (a == "--prop") prop = next();
		else if (a == "--seed") seed = strtoull(next(), nullptr, 10);
		else if (a == "--from") from = strtoull(next(), nullptr, 10);
		else if (a == "--to") to = strtoull(next(), nullptr, 10);
		else if (a == "--stride") stride = strtoull(next(), nullptr, 10);
		else if (a == "--limit") limit = atof(next());
		else if (a == "--replay") { mode = "replay"; list = next(); }
		else if (a == "--minimise") { mode = "minimise"; list = next(); }
		else if (a == "--budget") budget = atof(next());
		else if (a == "--trace") trace = true;
		else if (a == "--list") { for (auto& p : properties()) printf("%s\n", p.first.c_str()); return 0; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	auto it = properties().find(prop);
	if (it == properties().end()) { fprintf(stderr, "no such property here: %s\n", prop.c_str()); return 3; }
	if (mode == "run") {
		double end = now() + limit;
		for (uint64_t i = from; i < to; i += stride) {
			if (now() > end) break;
			Outcome o = executeRun(prop, it->second, seed, i, nullptr);
			emit(stdout, i, o, trace || o.verdict == VIOLATION);
		}
		return 0;
	}
	std::vector<uint32_t> l = readList(list.c_str());
	if (mode == "minimise") {
		Outcome o = executeRun(prop, it->second, 0, 0, &l);
		if (o.verdict != VIOLATION) { emit(stdout, 0, o, true); return 0; }
		std::string cls = o.cls; unsigned tries = 0;
		l = minimise(prop, it->second, l, cls, budget, tries);
		fprintf(stderr, "minimise: %u executions, %zu choices\n", tries, l.size());
	}
	Outcome o = executeRun(prop, it->second, 0, 0, &l);
	emit(stdout, 0, o, true);
	return 0;
}
