// The simulated machine: files, sockets, clock, terminal, environment, processes.
#pragma once
#include "sim.h"
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <termios.h>
#include <vector>

namespace sim {

constexpr int VFD_BASE = 1000;

struct Inode {
	bool dir = false;
	std::string data;
	bool readOnly = false;
	long id = 0;
};
using InodeP = std::shared_ptr<Inode>;

struct Socket;

// What an open descriptor refers to.
struct OpenFile {
	InodeP inode;
	std::string path;
	size_t offset = 0;
	bool append = false, readable = true, writable = false;
	std::shared_ptr<Socket> socket;
	int device = -1;			// >= 0: scripted device (see Device)
};

struct Socket {
	int id = 0;
	int state = 0;				// 0 fresh, 1 bound, 2 listening, 3 connected, 4 failed
	int domain = 0, type = 0, port = 0;
	bool shutRead = false, shutWrite = false;
};

struct FaultPlan {				// probabilities in 1/1000 per eligible call
	uint32_t openFail = 0, readFail = 0, readShort = 0, readEintr = 0;
	uint32_t writeFail = 0, writeShort = 0, writeEintr = 0;
	uint32_t closeFail = 0, seekFail = 0;
	uint32_t removeFail = 0, renameFail = 0, mkdirFail = 0;
	long diskFree = -1;			// bytes left on the disk; -1 = unlimited
	int maxOpen = 0;			// descriptor limit; 0 = none
	int readFailErrno = 5, writeFailErrno = 5;
	long budget = -1;			// faults left to inject; -1 = unlimited
};

struct World {
	std::map<std::string, InodeP> files;	// absolute path -> inode
	std::map<int, OpenFile> fds;
	int nextFd = VFD_BASE;
	bool reuseFds = false;
	bool logOpens = true;
	bool shuffleDirs = false;	// readdir order is drawn
	std::string cwd = "/simfs/work";
	FaultPlan faults;
	bool faultsOn = false;
	long opens = 0, closes = 0;
	long badCloses = 0;			// close() of something not open
	long errors = 0;			// injected failures, not counting short transfers
	uint64_t wallNanos = 1700000000ull * 1000000000ull;	// wall clock
	uint64_t monoNanos = 1000000000ull;
	uint64_t syscallBudget = 300000;

	// terminal
	std::string input; size_t inputPos = 0;
	bool inputEofSticky = true;
	int eofReads = 0;
	bool isTerminal = false; struct termios term = {};		// descriptors 0 to 2 are a terminal with these settings
	int termChanges = 0;

	// crash point: called before each state-changing call; may not return
	std::function<void(const char* what, const std::string& path)> beforeCall;
	// hooks for checks that script a subsystem completely
	std::function<long(int fd, void* buf, size_t n)> socketRead;
	std::function<long(int fd, const void* buf, size_t n)> socketWrite;
	std::function<int(const char* name, int fd, int a, int b)> socketCall;	// socket/bind/listen/accept/connect/shutdown/close
	std::string lastAddress; int lastPort = 0, lastFamily = 0;		// of the latest bind or connect
	std::function<void(int fd)> onSocketFd;							// a new socket was given this descriptor
	std::function<void(const char* what, int fd)> onBadFd;			// read or write of something not open
	std::function<int(const std::string& cmd)> systemCall;
	std::function<int(const std::string& cmd, std::string& out)> popenCall;	// returns exit status or -errno, fills the output
	std::function<void(const std::string& path, bool opened)> onOpen;	// every attempt to open a file
	std::function<void(const std::string& path)> onClose;
	std::function<void(const std::string& path)> onOpenFault;	// set: only existing files fail to open, reported here
	std::function<void(const std::string& path, long r, bool atEnd)> onRead;	// file reads: bytes or -1
	std::function<void()> onTick;				// before every simulated call
	std::function<void(int fd, const std::string& bytes)> onOutput;	// fd 1 and 2
	std::function<long(int fd, size_t n)> outputFault;	// <0: -errno, else bytes to accept
	std::function<int(uint64_t nanos, uint64_t* slept)> onSleep;		// return 0 or EINTR
	std::function<void(int status)> onExit;		// the program called exit()
	std::function<int()> onFork;
	std::function<int(int pid, int* status, int options)> onWait;
	std::function<int(const char* name, const char* value)> onSetenv;	// 0 or errno
	std::function<void()> onFlush;				// typed-ahead input is to be dropped
	std::function<int()> keysReady;				// number of bytes a read of the terminal would find, -1 at its end
	std::function<std::string()> onInput;		// next bytes of terminal input; "" = end of file
};

extern World W;
extern bool active;

std::string normalise(const std::string& path);
void putFile(const std::string& path, const std::string& data, bool readOnly = false);
void putDir(const std::string& path);
bool hasFile(const std::string& path);
std::string getFile(const std::string& path);
void loadLibrary(const std::string& hostDir, const std::string& simDir);	// before simulation starts
void preloadLibrary();			// /repo/Projects/Library -> /simfs/lib, read once by the worker
extern size_t streamBuffer;		// size of FILE buffers; 0 = libc default
void tick();					// accounts one simulated call
bool fault(uint32_t rate, const char* kind);

std::string shipWorld();		// serialise files
void unshipWorld(const std::string& s);

void installStdio(bool unbuffered);		// routes stdin/stdout/stderr and cin/cout/cerr to the simulation

// Runs fn as a simulated process (fresh copy of the program state); files written by it are kept.
struct ProcResult { int status = 0; int signal = 0; bool crashed = false; };
ProcResult runProcess(const std::function<int()>& fn);
[[noreturn]] void crashProcess();		// inside runProcess: the process is killed here
void endProcess(int status);			// inside runProcess: regular end

}
