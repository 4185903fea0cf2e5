// Deterministic simulation framework: choice sequence, event log, verdicts.
//
// One simulated run happens in a forked child of the worker process.  All
// nondeterminism is drawn from one choice sequence.  Every draw records the
// value that was chosen, so a run is reproduced exactly by its list of values;
// values missing at the end of a replayed list are 0, which generators treat
// as "nothing more / no fault / simplest case".
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

constexpr uint32_t MAX_CHOICES = 400000;
constexpr uint32_t MAX_TRACE = 1u << 21;
constexpr uint32_t MAX_COUNTERS = 96;
constexpr uint32_t MAX_SHIP = 1u << 22;
constexpr int MAX_PROCS = 48;

enum Verdict : int { RUNNING = 0, HELD = 1, VIOLATION = 2, DISCARD = 3, HARNESS_ERROR = 4 };

struct Counter { char name[40]; uint64_t value; };

// Everything that has to outlive the simulated process.
struct Shared {
	int verdict;
	char vclass[96];
	char vmsg[6000];
	uint32_t nchoices;
	uint32_t traceLen;
	uint32_t ncounters;
	uint64_t virtualNanos;
	uint64_t syscalls;
	uint64_t stateHash;		// measure of the distinct interleaving / state path
	uint64_t evalUnits;		// decisions compared by the oracle
	uint64_t replayLen;
	uint64_t rng[2];
	int replaying;
	char prop[16];
	int runStatus, runTimeout, runError;
	// baton scheduler for simulated processes
	int procCount;
	struct Proc { int used, alive, reaped, parent, status, blocked, waitFor; int osPid; } procs[MAX_PROCS];
	volatile int current;
	volatile int wakeups[MAX_PROCS];
	uint32_t shipLen;
	Counter counters[MAX_COUNTERS];
	uint32_t choices[MAX_CHOICES];
	uint32_t replay[MAX_CHOICES];
	char trace[MAX_TRACE];
	char ship[MAX_SHIP];
};

extern Shared* S;

// --- choices ---------------------------------------------------------------
uint32_t draw(uint32_t n);					// uniform in [0,n)
uint32_t drawWeighted(const std::vector<uint32_t>& weights);
bool chance(uint32_t num, uint32_t den);	// true with probability num/den
int range(int lo, int hi);					// uniform in [lo,hi], simplest = lo
std::string bulk(char first = 'a', int letters = 26);	// text around one of the sizes buffers have
uint64_t mix(uint64_t a, uint64_t b);

// --- log -------------------------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void logs(const std::string& s);
std::string traceText();
void count(const char* name, uint64_t n = 1);
void note(uint64_t h);						// folds into the state measure

// --- verdicts (do not return) -----------------------------------------------
[[noreturn]] void violation(const std::string& cls, const std::string& msg);
[[noreturn]] void held();
[[noreturn]] void discard(const std::string& why);
[[noreturn]] void harnessError(const std::string& why);

// --- properties -------------------------------------------------------------
struct Property {
	std::function<void()> run;		// executes one simulated run; ends with a verdict
	unsigned cpuSeconds = 4;
};
std::map<std::string, Property>& properties();
struct Register {
	Register(const char* id, std::function<void()> fn, unsigned cpu = 4) {
		Property p; p.run = std::move(fn); p.cpuSeconds = cpu;
		properties()[id] = p;
	}
};

[[noreturn]] void realExit(int code);		// leaves the OS process at once
int realFork();
int realWaitpid(int pid, int* status, int options);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string& s);

}
