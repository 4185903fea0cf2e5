// Simulated processes: every one is a real copy of the program, but only the one
// that holds the baton runs; at each simulated call the seed decides who goes on.
#pragma once
#include "sim.h"

namespace sim {

extern int me;							// number of the simulated process this is; 0 = first
extern uint32_t switchRate;				// chance per 1000 to switch at a simulated call
extern std::function<void()> onKill;	// the process is about to be killed by the simulation
extern uint32_t killRate;				// chance per 1000 that a process other than the first is killed at a simulated call

int simPid(int slot);
void startProcesses();
extern int processLimit;		// how many processes a run may have, at most MAX_PROCS
int procFork();							// pid for the parent, 0 for the child, -EAGAIN if there are too many
int procWait(int pid, int* status, int options);	// pid, 0 or -errno; does not inject interruptions
void procPoint();						// another process may run here
[[noreturn]] void procExit(int rawStatus);			// end of a process other than the first
void drainProcesses(int rawStatus);		// end of the first process: returns once all others have ended

}
