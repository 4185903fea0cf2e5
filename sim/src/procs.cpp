#include "procs.h"
#include "world.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

int me = 0;
uint32_t switchRate = 0, killRate = 0;
std::function<void()> onKill;
static bool on = false;

int simPid(int slot) { return 4000 + slot * 7; }
static int slotOf(int pid) { return (pid - 4000) % 7 ? -1 : (pid - 4000) / 7; }

static void crashed(int sg) {
	if (S->verdict == RUNNING) {
		S->verdict = VIOLATION;
		if (sg == SIGXCPU) { snprintf(S->vclass, sizeof S->vclass, "hang"); snprintf(S->vmsg, sizeof S->vmsg, "process %d did not end within the processor time limit", me); }
		else { snprintf(S->vclass, sizeof S->vclass, "crash-signal-%d", sg); snprintf(S->vmsg, sizeof S->vmsg, "process %d was killed by signal %d", me, sg); }
	}
	realExit(0);
}

static void giveTo(int slot) {
	__atomic_store_n(&S->current, slot, __ATOMIC_SEQ_CST);
	syscall(SYS_futex, &S->current, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0);
}
static void takeBaton() {
	for (;;) {
		if (S->verdict != RUNNING) realExit(0);
		int c = __atomic_load_n(&S->current, __ATOMIC_SEQ_CST);
		if (c == me) return;
		struct timespec ts = { 0, 5000000 };
		syscall(SYS_futex, &S->current, FUTEX_WAIT, c, &ts, nullptr, 0);
	}
}

static std::vector<int> runnable() {
	std::vector<int> r;
	for (int i = 0; i < S->procCount; ++i) if (S->procs[i].alive && !S->procs[i].blocked) r.push_back(i);
	return r;
}

int processLimit = 16;

void startProcesses() {
	on = true; me = 0;
	S->procCount = 1;
	S->procs[0].used = S->procs[0].alive = 1; S->procs[0].parent = -1;
	S->current = 0;
	static char stack[65536];
	stack_t ss; ss.ss_sp = stack; ss.ss_size = sizeof stack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	for (int sg : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU }) {
		struct sigaction sa = {}; sa.sa_handler = crashed; sa.sa_flags = SA_ONSTACK; sigaction(sg, &sa, nullptr);
	}
}

int procFork() {
	if (S->procCount >= processLimit) return -EAGAIN;
	int slot = S->procCount++;
	S->procs[slot] = {};
	S->procs[slot].used = S->procs[slot].alive = 1;
	S->procs[slot].parent = me;
	int pid = realFork();
	if (pid < 0) harnessError("fork failed");
	if (pid == 0) { me = slot; takeBaton(); return 0; }
	log("  process %d forks process %d", me, slot);
	return simPid(slot);
}

void procPoint() {
	if (!on || S->procCount < 2) return;
	if (me && killRate && draw(1000) < killRate) {
		count("fault.kill");
		log("  ! process %d is killed", me);
		if (onKill) onKill();
		procExit(SIGKILL);
	}
	auto r = runnable();
	if (r.size() < 2 || draw(1000) >= switchRate) return;
	int next = r[draw(static_cast<uint32_t>(r.size()))];
	if (next == me) return;
	count("switches");
	note(mix(0x5157, static_cast<uint64_t>(next)));
	log("  process %d -> process %d", me, next);
	giveTo(next);
	takeBaton();
}

static void ended(int rawStatus) {
	auto& p = S->procs[me];
	p.alive = 0; p.status = rawStatus;
	log("  process %d ended with status %#x", me, rawStatus);
	for (int i = 0; i < S->procCount; ++i) if (S->procs[i].parent == me) S->procs[i].parent = -1;
	if (p.parent >= 0) S->procs[p.parent].blocked = 0;
}
static int pickNext() {
	auto r = runnable();
	if (r.empty()) return 0;
	return r.size() == 1 ? r[0] : r[draw(static_cast<uint32_t>(r.size()))];
}
void procExit(int rawStatus) {
	ended(rawStatus);
	int next = pickNext();
	if (S->verdict == RUNNING) giveTo(next);
	realExit(0);
}
void drainProcesses(int rawStatus) {
	ended(rawStatus);
	while (!runnable().empty()) { giveTo(pickNext()); takeBaton(); }
}

int procWait(int pid, int* status, int options) {
	for (;;) {
		std::vector<int> dead; bool any = false;
		for (int i = 0; i < S->procCount; ++i) {
			auto& p = S->procs[i];
			if (p.parent != me || p.reaped || (pid > 0 && i != slotOf(pid))) continue;
			any = true;
			if (!p.alive) dead.push_back(i);
		}
		if (!any) return -ECHILD;
		if (!dead.empty()) {
			int i = dead[dead.size() == 1 ? 0 : draw(static_cast<uint32_t>(dead.size()))];
			S->procs[i].reaped = 1;
			if (status) *status = S->procs[i].status;
			log("  process %d reaps process %d", me, i);
			return simPid(i);
		}
		if (options & WNOHANG) return 0;
		S->procs[me].blocked = 1;
		auto r = runnable();
		if (r.empty()) harnessError("all processes wait");
		giveTo(pickNext());
		takeBaton();
		S->procs[me].blocked = 0;
	}
}

}
