// libc symbols of the simulated programs.  The definitions here take
// precedence over libc's for this executable and for libstdc++.
#include <sys/utsname.h>
#include "world.h"

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <csetjmp>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <netdb.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <ext/stdio_sync_filebuf.h>

namespace sim {

World W;
bool active = false;
static long nextInode = 1;
static std::map<FILE*, int> streams;
static bool inProcess = false;

#define REAL(ret, name, ...) \
	static ret (*real)(__VA_ARGS__) = reinterpret_cast<ret (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, name))

std::string normalise(const std::string& path) {
	std::string p = path;
	if (p.empty() || p[0] != '/') p = W.cwd + "/" + p;
	std::vector<std::string> parts;
	size_t i = 0;
	while (i < p.size()) {
		while (i < p.size() && p[i] == '/') ++i;
		size_t j = i;
		while (j < p.size() && p[j] != '/') ++j;
		if (j > i) {
			std::string s = p.substr(i, j - i);
			if (s == "..") { if (!parts.empty()) parts.pop_back(); }
			else if (s != ".") parts.push_back(s);
		}
		i = j;
	}
	std::string r;
	for (auto& s : parts) r += "/" + s;
	return r.empty() ? "/" : r;
}
void putDir(const std::string& path) {
	std::string p = normalise(path);
	while (true) {
		auto& n = W.files[p];
		if (!n) { n = std::make_shared<Inode>(); n->dir = true; n->id = nextInode++; }
		if (p == "/") break;
		size_t k = p.rfind('/');
		p = k == 0 ? "/" : p.substr(0, k);
	}
}
static std::string parentOf(const std::string& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
void putFile(const std::string& path, const std::string& data, bool ro) {
	std::string p = normalise(path);
	putDir(parentOf(p));
	auto n = std::make_shared<Inode>();
	n->data = data; n->readOnly = ro; n->id = nextInode++;
	W.files[p] = n;
}
bool hasFile(const std::string& path) { return W.files.count(normalise(path)) != 0; }
std::string getFile(const std::string& path) {
	auto it = W.files.find(normalise(path));
	return it == W.files.end() ? std::string() : it->second->data;
}
void loadLibrary(const std::string& host, const std::string& simDir) {
	DIR* d = opendir(host.c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
	closedir(d);
	std::sort(names.begin(), names.end());
	putDir(simDir);
	for (auto& n : names) {
		std::string h = host + "/" + n;
		struct stat st;
		if (::stat(h.c_str(), &st) != 0) continue;
		if (S_ISDIR(st.st_mode)) loadLibrary(h, simDir + "/" + n);
		else if (st.st_size < 100000) {
			std::ifstream in(h, std::ios::binary);
			std::string c((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
			putFile(simDir + "/" + n, c, true);
		}
	}
}
void preloadLibrary() {
	loadLibrary("/repo/Projects/Library", "/simfs/lib");
}

void enterSimulation() {
	active = true;
	if (!W.files.count(normalise(W.cwd))) putDir(W.cwd);
	putDir("/simfs/home");
	putDir("/tmp");
}
void tick() {
	++S->syscalls;
	if (S->syscalls > W.syscallBudget) violation("hang", "the program keeps making system calls without end");
	if (W.onTick) W.onTick();
}
bool fault(uint32_t rate, const char* kind) {
	if (!W.faultsOn || rate == 0 || W.faults.budget == 0) return false;
	if (!chance(rate, 1000)) return false;
	if (W.faults.budget > 0) --W.faults.budget;
	if (!strstr(kind, "-short")) ++W.errors;
	count((std::string("fault.") + kind).c_str());
	note(mix(S->syscalls, static_cast<uint64_t>(kind[0]) * 131 + static_cast<uint64_t>(kind[1])));
	log("  ! fault: %s (call %llu)", kind, static_cast<unsigned long long>(S->syscalls));
	return true;
}

static OpenFile* get(int fd) { auto it = W.fds.find(fd); return it == W.fds.end() ? nullptr : &it->second; }
static int allocFd(OpenFile f) {
	int fd = W.nextFd;
	if (W.reuseFds) { fd = VFD_BASE; while (W.fds.count(fd)) ++fd; }
	else ++W.nextFd;
	W.fds[fd] = std::move(f);
	++W.opens;
	return fd;
}
static void before(const char* what, const std::string& path) { if (W.beforeCall) W.beforeCall(what, path); }

static int simOpen1(const std::string& path, int flags) {
	tick();
	std::string p = normalise(path);
	if (path.empty()) { errno = ENOENT; return -1; }
	if ((!W.onOpenFault || W.files.count(p)) && fault(W.faults.openFail, "open")) { if (W.onOpenFault) W.onOpenFault(p); errno = chance(1, 2) ? EMFILE : EIO; return -1; }
	if (W.faultsOn && W.faults.maxOpen && static_cast<int>(W.fds.size()) >= W.faults.maxOpen) { count("fault.emfile"); ++W.errors; errno = EMFILE; return -1; }
	auto it = W.files.find(p);
	int acc = flags & O_ACCMODE;
	if (it == W.files.end()) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		auto par = W.files.find(parentOf(p));
		if (par == W.files.end() || !par->second->dir) { errno = ENOENT; return -1; }
		before("create", p);
		putFile(p, "");
		it = W.files.find(p);
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (it->second->dir && acc != O_RDONLY) { errno = EISDIR; return -1; }
		if (it->second->readOnly && acc != O_RDONLY) { errno = EACCES; return -1; }
		if ((flags & O_TRUNC) && acc != O_RDONLY) { before("truncate", p); it->second->data.clear(); }
	}
	OpenFile f;
	f.inode = it->second; f.path = p;
	f.readable = acc != O_WRONLY; f.writable = acc != O_RDONLY; f.append = (flags & O_APPEND) != 0;
	return allocFd(f);
}
static int simOpen(const std::string& path, int flags) {
	int r = simOpen1(path, flags);
	if (W.logOpens) log("  open %s -> %d", path.c_str(), r);
	if (W.onOpen) { int e = errno; W.onOpen(normalise(path), r >= 0); errno = e; }
	return r;
}
static long simRead(int fd, void* buf, size_t n) {
	tick();
	OpenFile* f = get(fd);
	if (!f && W.onBadFd) W.onBadFd("read", fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->socket || f->device >= 0) {
		if (!W.socketRead) { errno = EBADF; return -1; }
		long r = W.socketRead(fd, buf, n);
		if (r < 0) { errno = static_cast<int>(-r); return -1; }
		return r;
	}
	if (!f->readable) { errno = EBADF; return -1; }
	if (f->inode->dir) { errno = EISDIR; return -1; }
	if (fault(W.faults.readEintr, "read-eintr")) { errno = EINTR; return -1; }
	if (fault(W.faults.readFail, "read-error")) { if (W.onRead) W.onRead(f->path, -1, false); errno = W.faults.readFailErrno; return -1; }
	size_t avail = f->offset < f->inode->data.size() ? f->inode->data.size() - f->offset : 0;
	size_t k = std::min(n, avail);
	if (k > 1 && fault(W.faults.readShort, "read-short")) k = 1 + draw(static_cast<uint32_t>(k - 1));
	memcpy(buf, f->inode->data.data() + f->offset, k);
	f->offset += k;
	if (W.onRead) W.onRead(f->path, static_cast<long>(k), f->offset >= f->inode->data.size());
	return static_cast<long>(k);
}
static long outputWrite(int fd, const char* buf, size_t n) {
	tick();
	size_t k = n;
	if (W.outputFault) {
		long r = W.outputFault(fd, n);
		if (r < 0) { errno = static_cast<int>(-r); return -1; }
		k = static_cast<size_t>(r);
	}
	if (W.onOutput) W.onOutput(fd, std::string(buf, k));
	return static_cast<long>(k);
}
static bool pipeSignalKills() {
	struct sigaction sa; sigset_t blocked;
	sigaction(SIGPIPE, nullptr, &sa);
	pthread_sigmask(SIG_BLOCK, nullptr, &blocked);
	return sa.sa_handler == SIG_DFL && !sigismember(&blocked, SIGPIPE);
}
static long simWrite(int fd, const void* buf, size_t n, bool noSignal = false) {
	if (fd == 1 || fd == 2) return outputWrite(fd, static_cast<const char*>(buf), n);
	tick();
	OpenFile* f = get(fd);
	if (!f && W.onBadFd) W.onBadFd("write", fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->socket || f->device >= 0) {
		if (!W.socketWrite) { errno = EBADF; return -1; }
		long r = W.socketWrite(fd, buf, n);
		if (r == -EPIPE && f->socket && !noSignal && pipeSignalKills()) violation("killed-by-sigpipe", "the peer is gone and the write raised SIGPIPE, which kills the program");
		if (r < 0) { errno = static_cast<int>(-r); return -1; }
		return r;
	}
	if (!f->writable) { errno = EBADF; return -1; }
	if (n == 0) return 0;
	before("write", f->path);
	if (fault(W.faults.writeEintr, "write-eintr")) { errno = EINTR; return -1; }
	if (fault(W.faults.writeFail, "write-error")) { errno = W.faults.writeFailErrno; return -1; }
	size_t k = n;
	if (k > 1 && fault(W.faults.writeShort, "write-short")) k = 1 + draw(static_cast<uint32_t>(k - 1));
	if (f->append) f->offset = f->inode->data.size();
	if (W.faults.diskFree >= 0) {
		size_t end = f->offset + k;
		size_t grow = end > f->inode->data.size() ? end - f->inode->data.size() : 0;
		if (grow > static_cast<size_t>(W.faults.diskFree)) {
			count("fault.disk-full"); ++W.errors;
			log("  ! fault: disk full (call %llu)", static_cast<unsigned long long>(S->syscalls));
			size_t over = grow - static_cast<size_t>(W.faults.diskFree);
			if (over >= k) { errno = ENOSPC; return -1; }
			k -= over; grow -= over;
		}
		W.faults.diskFree -= static_cast<long>(grow);
	}
	std::string& d = f->inode->data;
	if (f->offset > d.size()) d.resize(f->offset, '\0');
	if (f->offset + k > d.size()) d.resize(f->offset + k);
	memcpy(&d[f->offset], buf, k);
	f->offset += k;
	return static_cast<long>(k);
}
static long simSeek(int fd, long off, int whence) {
	tick();
	OpenFile* f = get(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->socket || f->device >= 0 || !f->inode) { errno = ESPIPE; return -1; }
	if (fault(W.faults.seekFail, "seek-error")) { errno = EIO; return -1; }
	long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<long>(f->offset) : static_cast<long>(f->inode->data.size());
	if (base + off < 0) { errno = EINVAL; return -1; }
	f->offset = static_cast<size_t>(base + off);
	return static_cast<long>(f->offset);
}
static int simClose(int fd) {
	tick();
	OpenFile* f = get(fd);
	if (!f) { ++W.badCloses; errno = EBADF; return -1; }
	if (f->socket && W.socketCall) {
		int r = W.socketCall("close", fd, 0, 0);
		W.fds.erase(fd); ++W.closes;
		if (r < 0) { errno = -r; return -1; }
		return 0;
	}
	bool bad = f->writable && fault(W.faults.closeFail, "close-error");
	std::string path = f->path;
	W.fds.erase(fd); ++W.closes;
	if (W.onClose) W.onClose(path);
	if (bad) { errno = EIO; return -1; }
	return 0;
}

// --- FILE streams over simulated descriptors --------------------------------

static ssize_t ckRead(void* c, char* buf, size_t n) {
	int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
	return simRead(fd, buf, n);
}
static ssize_t ckWrite(void* c, const char* buf, size_t n) {
	// as libc does for plain files: short writes are continued, errors end it
	int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
	size_t done = 0;
	while (done < n) {
		long r = simWrite(fd, buf + done, n - done);
		if (r < 0) break;
		done += static_cast<size_t>(r);
	}
	return static_cast<ssize_t>(done);
}
static int ckSeek(void* c, off64_t* pos, int whence) {
	int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
	long r = simSeek(fd, static_cast<long>(*pos), whence);
	if (r < 0) return -1;
	*pos = r;
	return 0;
}
static int ckClose(void* c) {
	int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
	for (auto it = streams.begin(); it != streams.end(); ++it) if (it->second == fd) { streams.erase(it); break; }
	return simClose(fd);
}
size_t streamBuffer = 0;		// 0: libc default

static FILE* wrap(int fd, const char* mode) {
	cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
	std::string m(1, mode[0]);
	if (strchr(mode, '+')) m += '+';
	FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), m.c_str(), io);
	if (!f) { simClose(fd); return nullptr; }
	if (streamBuffer) setvbuf(f, static_cast<char*>(malloc(streamBuffer)), _IOFBF, streamBuffer);
	streams[f] = fd;
	return f;
}

static ssize_t inRead(void*, char* buf, size_t n) {
	tick();
	if (W.onInput && W.inputPos >= W.input.size()) {
		std::string more = W.onInput();
		W.input += more;
	}
	size_t k = std::min(n, W.input.size() - std::min(W.inputPos, W.input.size()));
	if (k == 0) {
		if (++W.eofReads > 2000) violation("spins-at-end-of-input", "the program keeps reading its input after it has ended");
		return 0;
	}
	memcpy(buf, W.input.data() + W.inputPos, k);
	W.inputPos += k;
	return static_cast<ssize_t>(k);
}
static ssize_t outWrite(void* c, const char* buf, size_t n) {
	int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
	size_t done = 0;
	while (done < n) {
		long r = simWrite(fd, buf + done, n - done);
		if (r < 0) break;
		done += static_cast<size_t>(r);
	}
	return static_cast<ssize_t>(done);
}
void installStdio(bool unbuffered) {
	cookie_io_functions_t in = { inRead, nullptr, nullptr, nullptr };
	cookie_io_functions_t out = { nullptr, outWrite, nullptr, nullptr };
	stdin = fopencookie(nullptr, "r", in);
	stdout = fopencookie(reinterpret_cast<void*>(1), "w", out);
	stderr = fopencookie(reinterpret_cast<void*>(2), "w", out);
	if (unbuffered) setvbuf(stdout, nullptr, _IONBF, 0);
	setvbuf(stderr, nullptr, _IONBF, 0);
	std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdin));
	std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
	std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
	std::clog.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
}

// --- simulated processes -----------------------------------------------------

static void put32(std::string& s, size_t v) { uint32_t x = static_cast<uint32_t>(v); s.append(reinterpret_cast<char*>(&x), 4); }
static uint32_t get32(const std::string& s, size_t& i) { uint32_t x; memcpy(&x, s.data() + i, 4); i += 4; return x; }
std::string shipWorld() {
	std::string s;
	size_t n = 0;
	for (auto& f : W.files) if (!f.second->readOnly) ++n;
	put32(s, n);
	for (auto& f : W.files) {
		if (f.second->readOnly) continue;
		put32(s, f.first.size()); s += f.first;
		put32(s, f.second->dir); put32(s, f.second->data.size()); s += f.second->data;
	}
	put32(s, static_cast<size_t>(W.faults.diskFree + 1));
	put32(s, static_cast<size_t>(W.faults.budget + 1));
	return s;
}
void unshipWorld(const std::string& s) {
	std::map<std::string, InodeP> files;
	for (auto& f : W.files) if (f.second->readOnly) files.insert(f);
	size_t i = 0;
	uint32_t n = get32(s, i);
	while (n--) {
		uint32_t l = get32(s, i); std::string name = s.substr(i, l); i += l;
		auto node = std::make_shared<Inode>();
		node->dir = get32(s, i) != 0;
		uint32_t d = get32(s, i); node->data = s.substr(i, d); i += d;
		node->id = nextInode++;
		files[name] = node;
	}
	W.files = files;
	W.faults.diskFree = static_cast<long>(get32(s, i)) - 1;
	W.faults.budget = static_cast<long>(get32(s, i)) - 1;
}
static void ship(int crashed) {
	std::string s = shipWorld();
	if (s.size() + 8 > MAX_SHIP) discard("world too large");
	memcpy(S->ship, &crashed, 4);
	memcpy(S->ship + 4, s.data(), s.size());
	S->shipLen = static_cast<uint32_t>(s.size() + 4);
}
void crashProcess() { ship(1); realExit(77); }
void endProcess(int status) {
	fflush(nullptr);
	ship(0);
	realExit(status & 0xff);
}
ProcResult runProcess(const std::function<int()>& fn) {
	ProcResult r;
	S->shipLen = 0;
	int pid = realFork();
	if (pid < 0) harnessError("fork failed");
	if (pid == 0) {
		inProcess = true;
		int st = fn();
		endProcess(st);
	}
	int status = 0;
	while (realWaitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	if (S->verdict != RUNNING) realExit(0);		// a monitor ended the run
	if (WIFSIGNALED(status)) {
		int sg = WTERMSIG(status);
		if (sg == SIGXCPU || sg == SIGKILL) violation("hang", "the program did not terminate within the processor time limit");
		r.signal = sg;
		return r;
	}
	r.status = WEXITSTATUS(status);
	if (S->shipLen) {
		int crashed; memcpy(&crashed, S->ship, 4);
		r.crashed = crashed != 0;
		unshipWorld(std::string(S->ship + 4, S->shipLen - 4));
	}
	W.fds.clear();
	return r;
}

}

using namespace sim;

extern "C" {

FILE* fopen(const char* path, const char* mode) {
	REAL(FILE*, "fopen", const char*, const char*);
	if (!active) return real(path, mode);
	int flags;
	bool plus = strchr(mode, '+') != nullptr;
	switch (mode[0]) {
		case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
		case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
		case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
		default: errno = EINVAL; return nullptr;
	}
	if (strchr(mode, 'x')) flags |= O_EXCL;
	int fd = simOpen(path, flags);
	if (fd < 0) return nullptr;
	return wrap(fd, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* fdopen(int fd, const char* mode) {
	REAL(FILE*, "fdopen", int, const char*);
	if (!active) return real(fd, mode);
	if (!get(fd)) { errno = EBADF; return nullptr; }
	return wrap(fd, mode);
}
FILE* tmpfile() {
	REAL(FILE*, "tmpfile");
	if (!active) return real();
	tick();
	if (fault(W.faults.openFail, "open")) { errno = EMFILE; return nullptr; }
	OpenFile f;
	f.inode = std::make_shared<Inode>(); f.path = "(tmpfile)"; f.writable = true;
	return wrap(allocFd(f), "w+");
}
char* tmpnam(char* buf) {
	static char stat_[64]; static int n = 0;
	char* b = buf ? buf : stat_;
	snprintf(b, 20, "/tmp/sim%06d", ++n);
	return b;
}
int fileno(FILE* f) {
	REAL(int, "fileno", FILE*);
	if (!active) return real(f);
	if (f == stdin) return 0;
	if (f == stdout) return 1;
	if (f == stderr) return 2;
	auto it = streams.find(f);
	if (it == streams.end()) { errno = EBADF; return -1; }
	return it->second;
}
int open(const char* path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (!active) return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
	return simOpen(path, flags);
}
int open64(const char* path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	return open(path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (!active) return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
	return simOpen(path, flags);
}
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
ssize_t read(int fd, void* buf, size_t n) {
	if (!active) return syscall(SYS_read, fd, buf, n);
	if (fd == 0) return inRead(nullptr, static_cast<char*>(buf), n);
	return simRead(fd, buf, n);
}
ssize_t write(int fd, const void* buf, size_t n) {
	if (!active) return syscall(SYS_write, fd, buf, n);
	return simWrite(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
	if (!active) return syscall(SYS_writev, fd, v, c);
	ssize_t total = 0;
	for (int i = 0; i < c; ++i) {
		if (!v[i].iov_len) continue;
		ssize_t r = simWrite(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return total ? total : -1;
		total += r;
		if (static_cast<size_t>(r) < v[i].iov_len) break;
	}
	return total;
}
off_t lseek(int fd, off_t off, int whence) {
	if (!active) return syscall(SYS_lseek, fd, off, whence);
	return simSeek(fd, off, whence);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
	if (!active) return syscall(SYS_readv, fd, v, c);
	ssize_t total = 0;
	for (int i = 0; i < c; ++i) {
		if (!v[i].iov_len) continue;
		ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return total ? total : -1;
		total += r;
		if (static_cast<size_t>(r) < v[i].iov_len) break;
	}
	return total;
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
	if (!active) return syscall(SYS_pread64, fd, b, n, off);
	off_t at = simSeek(fd, 0, SEEK_CUR);
	if (at < 0 || simSeek(fd, off, SEEK_SET) < 0) return -1;
	ssize_t r = simRead(fd, b, n);
	int e = errno; simSeek(fd, at, SEEK_SET); errno = e;
	return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
	if (!active) return syscall(SYS_pwrite64, fd, b, n, off);
	off_t at = simSeek(fd, 0, SEEK_CUR);
	if (at < 0 || simSeek(fd, off, SEEK_SET) < 0) return -1;
	ssize_t r = simWrite(fd, b, n);
	int e = errno; simSeek(fd, at, SEEK_SET); errno = e;
	return r;
}
off64_t lseek64(int fd, off64_t off, int whence) { return lseek(fd, off, whence); }
int close(int fd) {
	if (!active) return static_cast<int>(syscall(SYS_close, fd));
	return simClose(fd);
}
int fsync(int fd) {
	if (!active) return static_cast<int>(syscall(SYS_fsync, fd));
	tick();
	if (!get(fd)) { errno = EBADF; return -1; }
	if (fault(W.faults.writeFail, "fsync-error")) { errno = EIO; return -1; }
	return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t len) {
	if (!active) return static_cast<int>(syscall(SYS_ftruncate, fd, len));
	OpenFile* f = get(fd);
	if (!f || !f->inode) { errno = EBADF; return -1; }
	before("truncate", f->path);
	f->inode->data.resize(static_cast<size_t>(len));
	return 0;
}

static int fillStat(const InodeP& n, struct stat* st) {
	memset(st, 0, sizeof *st);
	st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
	st->st_size = static_cast<off_t>(n->data.size());
	st->st_ino = static_cast<ino_t>(n->id);
	st->st_nlink = 1; st->st_blksize = 4096;
	return 0;
}
int stat(const char* path, struct stat* st) {
	if (!active) return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, st, 0));
	tick();
	auto it = W.files.find(normalise(path));
	if (it == W.files.end()) { errno = ENOENT; return -1; }
	return fillStat(it->second, st);
}
int lstat(const char* path, struct stat* st) {
	if (!active) return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW));
	return stat(path, st);
}
int fstat(int fd, struct stat* st) {
	if (!active) return static_cast<int>(syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH));
	OpenFile* f = get(fd);
	if (!f || !f->inode) { errno = EBADF; return -1; }
	return fillStat(f->inode, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int access(const char* path, int mode) {
	if (!active) return static_cast<int>(syscall(SYS_faccessat, AT_FDCWD, path, mode));
	tick();
	if (!W.files.count(normalise(path))) { errno = ENOENT; return -1; }
	return 0;
}
static bool hasChildren(const std::string& p) {
	auto it = W.files.upper_bound(p == "/" ? p : p + "/");
	if (p == "/") return it != W.files.end();
	return it != W.files.end() && it->first.compare(0, p.size() + 1, p + "/") == 0;
}
int unlink(const char* path) {
	if (!active) return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, path, 0));
	tick();
	std::string p = normalise(path);
	auto it = W.files.find(p);
	if (it == W.files.end()) { errno = ENOENT; return -1; }
	if (it->second->dir) { errno = EISDIR; return -1; }
	if (fault(W.faults.removeFail, "unlink-error")) { errno = EACCES; return -1; }
	before("unlink", p);
	W.files.erase(it);
	return 0;
}
int rmdir(const char* path) {
	if (!active) return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR));
	tick();
	std::string p = normalise(path);
	auto it = W.files.find(p);
	if (it == W.files.end()) { errno = ENOENT; return -1; }
	if (!it->second->dir) { errno = ENOTDIR; return -1; }
	if (hasChildren(p)) { errno = ENOTEMPTY; return -1; }
	if (fault(W.faults.removeFail, "rmdir-error")) { errno = EACCES; return -1; }
	before("rmdir", p);
	W.files.erase(it);
	return 0;
}
int unlinkat(int dfd, const char* path, int flags) {
	if (!active) return static_cast<int>(syscall(SYS_unlinkat, dfd, path, flags));
	return (flags & AT_REMOVEDIR) ? rmdir(path) : unlink(path);
}
int remove(const char* path) {
	REAL(int, "remove", const char*);
	if (!active) return real(path);
	auto it = W.files.find(normalise(path));
	if (it != W.files.end() && it->second->dir) return rmdir(path);
	return unlink(path);
}
int rename(const char* from, const char* to) {
	REAL(int, "rename", const char*, const char*);
	if (!active) return real(from, to);
	tick();
	std::string a = normalise(from), b = normalise(to);
	auto it = W.files.find(a);
	if (it == W.files.end()) { errno = ENOENT; return -1; }
	if (fault(W.faults.renameFail, "rename-error")) { errno = EACCES; return -1; }
	if (a == b) return 0;
	if (b.compare(0, a.size() + 1, a + "/") == 0) { errno = EINVAL; return -1; }
	auto tgt = W.files.find(b);
	if (tgt != W.files.end() && tgt->second->dir != it->second->dir) { errno = tgt->second->dir ? EISDIR : ENOTDIR; return -1; }
	if (tgt != W.files.end() && tgt->second->dir && hasChildren(b)) { errno = ENOTEMPTY; return -1; }
	auto par = W.files.find(parentOf(b));
	if (par == W.files.end() || !par->second->dir) { errno = par == W.files.end() ? ENOENT : ENOTDIR; return -1; }
	before("rename", b);
	std::map<std::string, InodeP> moved;
	for (auto i = W.files.begin(); i != W.files.end(); ) {
		if (i->first == a || i->first.compare(0, a.size() + 1, a + "/") == 0) {
			moved[b + i->first.substr(a.size())] = i->second;
			i = W.files.erase(i);
		} else ++i;
	}
	for (auto& m : moved) W.files[m.first] = m.second;
	return 0;
}
int mkdir(const char* path, mode_t mode) {
	if (!active) return static_cast<int>(syscall(SYS_mkdirat, AT_FDCWD, path, mode));
	tick();
	std::string p = normalise(path);
	if (W.files.count(p)) { errno = EEXIST; return -1; }
	auto par = W.files.find(parentOf(p));
	if (par == W.files.end() || !par->second->dir) { errno = par == W.files.end() ? ENOENT : ENOTDIR; return -1; }
	if (fault(W.faults.mkdirFail, "mkdir-error")) { errno = EACCES; return -1; }
	before("mkdir", p);
	putDir(p);
	return 0;
}

struct SimDir { std::vector<std::string> names; std::vector<bool> dirs; size_t pos = 0; struct dirent ent; };
static std::set<void*> simDirs;
DIR* opendir(const char* path) {
	REAL(DIR*, "opendir", const char*);
	if (!active) return real(path);
	tick();
	std::string p = normalise(path);
	auto it = W.files.find(p);
	if (it == W.files.end()) { errno = ENOENT; return nullptr; }
	if (!it->second->dir) { errno = ENOTDIR; return nullptr; }
	if (fault(W.faults.openFail, "opendir")) { errno = EMFILE; return nullptr; }
	auto* d = new SimDir;
	d->names = { ".", ".." };
	std::string pre = p == "/" ? p : p + "/";
	for (auto i = W.files.lower_bound(pre); i != W.files.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) {
		std::string rest = i->first.substr(pre.size());
		if (!rest.empty() && rest.find('/') == std::string::npos) d->names.push_back(rest);
	}
	for (auto& n : d->names) {
		auto i = W.files.find(normalise(pre + n));
		d->dirs.push_back(n[0] == '.' && (n == "." || n == "..") ? true : i != W.files.end() && i->second->dir);
	}
	if (W.shuffleDirs) for (size_t i = d->names.size(); i > 1; --i) {
		size_t j = i - 1 - draw(static_cast<uint32_t>(i));
		std::swap(d->names[i - 1], d->names[j]);
		bool t = d->dirs[i - 1]; d->dirs[i - 1] = d->dirs[j]; d->dirs[j] = t;
	}
	simDirs.insert(d);
	return reinterpret_cast<DIR*>(d);
}
struct dirent* readdir(DIR* dp) {
	REAL(struct dirent*, "readdir", DIR*);
	if (!simDirs.count(dp)) return real(dp);
	auto* d = reinterpret_cast<SimDir*>(dp);
	if (d->pos >= d->names.size()) return nullptr;
	memset(&d->ent, 0, sizeof d->ent);
	d->ent.d_type = d->dirs[d->pos] ? DT_DIR : DT_REG;
	snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->pos++].c_str());
	return &d->ent;
}
struct dirent64* readdir64(DIR* dp) { return reinterpret_cast<struct dirent64*>(readdir(dp)); }
int closedir(DIR* dp) {
	REAL(int, "closedir", DIR*);
	if (!simDirs.count(dp)) return real(dp);
	simDirs.erase(dp);
	delete reinterpret_cast<SimDir*>(dp);
	return 0;
}
char* realpath(const char* path, char* out) {
	REAL(char*, "realpath", const char*, char*);
	if (!active) return real(path, out);
	std::string p = normalise(path);
	char* b = out ? out : static_cast<char*>(malloc(4096));
	// like the real one: the longest resolvable prefix is left in the buffer on failure
	if (!W.files.count(p)) {
		std::string q = p;
		while (!W.files.count(parentOf(q)) && q != "/") q = parentOf(q);
		snprintf(b, 4096, "%s", q.c_str());
		errno = ENOENT;
		if (!out) free(b);
		return nullptr;
	}
	snprintf(b, 4096, "%s", p.c_str());
	return b;
}
char* getcwd(char* buf, size_t n) {
	REAL(char*, "getcwd", char*, size_t);
	if (!active) return real(buf, n);
	if (!buf) { buf = static_cast<char*>(malloc(4096)); n = 4096; }
	if (W.cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
	strcpy(buf, W.cwd.c_str());
	return buf;
}
int chdir(const char* path) {
	if (!active) return static_cast<int>(syscall(SYS_chdir, path));
	std::string p = normalise(path);
	if (!W.files.count(p)) { errno = ENOENT; return -1; }
	W.cwd = p;
	return 0;
}
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
	if (!active) return static_cast<int>(syscall(SYS_ioctl, fd, req, arg));
	if (req == FIONREAD && fd == 0 && W.keysReady) { *static_cast<int*>(arg) = std::max(0, W.keysReady()); return 0; }
	errno = ENOTTY;
	return -1;
}
// lets time pass until the terminal can be read; false if that takes longer than given
static bool waitForKey(long long nanos) {
	tick();
	while (W.keysReady() == 0) {
		if (nanos == 0) return false;
		long long d = nanos < 0 ? 1000000 : std::min(nanos, 1000000ll);
		W.monoNanos += static_cast<uint64_t>(d); W.wallNanos += static_cast<uint64_t>(d); S->virtualNanos += static_cast<uint64_t>(d);
		if (nanos > 0) nanos -= d;
		tick();
	}
	return true;
}
int poll(struct pollfd* f, nfds_t n, int timeout) {
	if (!active) return static_cast<int>(syscall(SYS_poll, f, n, timeout));
	int ready = 0;
	for (nfds_t i = 0; i < n; ++i) {
		f[i].revents = f[i].fd < 0 || (f[i].fd == 0 && W.keysReady && !waitForKey(timeout < 0 ? -1 : timeout * 1000000ll)) ? 0 : f[i].events;
		ready += f[i].revents != 0;
	}
	return ready;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
	if (!active) return static_cast<int>(syscall(SYS_select, n, r, w, e, t));
	if (e) FD_ZERO(e);
	int ready = 0;
	for (int i = 0; i < n; ++i) {
		if (i == 0 && r && FD_ISSET(0, r) && W.keysReady && !waitForKey(t ? t->tv_sec * 1000000000ll + t->tv_usec * 1000ll : -1)) FD_CLR(0, r);
		ready += (r && FD_ISSET(i, r)) + (w && FD_ISSET(i, w));
	}
	return ready;
}
int tcgetattr(int fd, struct termios* t) {
	REAL(int, "tcgetattr", int, struct termios*);
	if (!active) return real(fd, t);
	tick();
	if (W.isTerminal && fd >= 0 && fd <= 2) { *t = W.term; return 0; }
	errno = ENOTTY;
	return -1;
}
int tcsetattr(int fd, int a, const struct termios* t) {
	REAL(int, "tcsetattr", int, int, const struct termios*);
	if (!active) return real(fd, a, t);
	tick();
	if (W.isTerminal && fd >= 0 && fd <= 2) { W.term = *t; ++W.termChanges; if (a == TCSAFLUSH && W.onFlush) W.onFlush(); return 0; }
	errno = ENOTTY;
	return -1;
}
int isatty(int fd) {
	REAL(int, "isatty", int);
	if (!active) return real(fd);
	if (W.isTerminal && fd >= 0 && fd <= 2) return 1;
	errno = ENOTTY;
	return 0;
}

// --- clock -------------------------------------------------------------------

time_t time(time_t* t) {
	if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
	tick();
	time_t v = static_cast<time_t>(W.wallNanos / 1000000000ull);
	if (t) *t = v;
	return v;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
	if (!active) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
	tick();
	uint64_t n = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? W.wallNanos : W.monoNanos;
	ts->tv_sec = static_cast<time_t>(n / 1000000000ull);
	ts->tv_nsec = static_cast<long>(n % 1000000000ull);
	return 0;
}
int gettimeofday(struct timeval* tv, void*) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
clock_t clock() {
	REAL(clock_t, "clock");
	if (!active) return real();
	return static_cast<clock_t>(W.monoNanos / 1000);
}
static int simSleep(uint64_t want, uint64_t* left) {
	tick();
	uint64_t slept = want; int r = 0;
	if (W.onSleep) r = W.onSleep(want, &slept);
	W.monoNanos += slept; W.wallNanos += slept; S->virtualNanos += slept;
	*left = r ? want - std::min(want, slept) : 0;
	return r;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
	if (!active) return static_cast<int>(syscall(SYS_nanosleep, req, rem));
	if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) { errno = EINVAL; return -1; }
	uint64_t left;
	int r = simSleep(static_cast<uint64_t>(req->tv_sec) * 1000000000ull + static_cast<uint64_t>(req->tv_nsec), &left);
	if (r == 0) return 0;
	if (rem) { rem->tv_sec = static_cast<time_t>(left / 1000000000ull); rem->tv_nsec = static_cast<long>(left % 1000000000ull); }
	errno = r;
	return -1;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem) {
	if (!active) return static_cast<int>(-syscall(SYS_clock_nanosleep, id, flags, req, rem));
	uint64_t want = static_cast<uint64_t>(req->tv_sec) * 1000000000ull + static_cast<uint64_t>(req->tv_nsec);
	if (flags & TIMER_ABSTIME) {
		uint64_t n = id == CLOCK_REALTIME ? W.wallNanos : W.monoNanos;
		want = want > n ? want - n : 0;
	}
	uint64_t left;
	int r = simSleep(want, &left);
	if (r && rem && !(flags & TIMER_ABSTIME)) { rem->tv_sec = static_cast<time_t>(left / 1000000000ull); rem->tv_nsec = static_cast<long>(left % 1000000000ull); }
	return r;
}
int usleep(useconds_t us) {
	struct timespec ts = { static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000 };
	return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
	struct timespec ts = { static_cast<time_t>(s), 0 }, rem = { 0, 0 };
	if (nanosleep(&ts, &rem) == 0) return 0;
	return static_cast<unsigned>(rem.tv_sec + (rem.tv_nsec > 0 ? 1 : 0));
}

// --- network -----------------------------------------------------------------

static int sockCall(const char* name, int fd, int a, int b) {
	tick();
	int r = W.socketCall ? W.socketCall(name, fd, a, b) : -ENOSYS;
	if (r < 0) { errno = -r; return -1; }
	return r;
}
int socket(int d, int t, int p) {
	if (!active) return static_cast<int>(syscall(SYS_socket, d, t, p));
	int r = sockCall("socket", -1, d, t);
	if (r < 0) return r;
	OpenFile f; f.socket = std::make_shared<Socket>(); f.socket->id = r; f.socket->domain = d; f.socket->type = t; f.readable = f.writable = true;
	int fd = allocFd(f);
	if (W.onSocketFd) W.onSocketFd(fd);
	return fd;
}
static bool isSock(int fd) { OpenFile* f = get(fd); if (!f) { errno = EBADF; return false; } if (!f->socket) { errno = ENOTSOCK; return false; } return true; }
static int portOf(const struct sockaddr* a, socklen_t l) {
	char text[64] = "";
	W.lastFamily = a->sa_family;
	if (a->sa_family == AF_INET6) {
		struct sockaddr_in6 v; memset(&v, 0, sizeof v); memcpy(&v, a, std::min<size_t>(l, sizeof v));
		inet_ntop(AF_INET6, &v.sin6_addr, text, sizeof text);
		W.lastAddress = l < sizeof v ? "(address too short)" : text; W.lastPort = ntohs(v.sin6_port);
	} else {
		struct sockaddr_in v; memset(&v, 0, sizeof v); memcpy(&v, a, std::min<size_t>(l, sizeof v));
		inet_ntop(AF_INET, &v.sin_addr, text, sizeof text);
		W.lastAddress = text; W.lastPort = ntohs(v.sin_port);
	}
	return W.lastPort;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) {
	if (!active) return static_cast<int>(syscall(SYS_bind, fd, a, l));
	if (!isSock(fd)) return -1;
	return sockCall("bind", fd, portOf(a, l), 0);
}
int listen(int fd, int n) {
	if (!active) return static_cast<int>(syscall(SYS_listen, fd, n));
	if (!isSock(fd)) return -1;
	return sockCall("listen", fd, n, 0);
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
	if (!active) return static_cast<int>(syscall(SYS_connect, fd, a, l));
	if (!isSock(fd)) return -1;
	return sockCall("connect", fd, portOf(a, l), 0);
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
	if (!active) return static_cast<int>(syscall(SYS_accept, fd, a, l));
	if (!isSock(fd)) return -1;
	int r = sockCall("accept", fd, 0, 0);
	if (r < 0) return r;
	OpenFile f; f.socket = std::make_shared<Socket>(); f.socket->id = r; f.socket->state = 3; f.readable = f.writable = true;
	int s = allocFd(f);
	if (W.onSocketFd) W.onSocketFd(s);
	return s;
}
int shutdown(int fd, int how) {
	if (!active) return static_cast<int>(syscall(SYS_shutdown, fd, how));
	if (!isSock(fd)) return -1;
	return sockCall("shutdown", fd, how, 0);
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
	if (!active) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
	ssize_t r = simRead(fd, b, n), k = r;
	while ((flags & MSG_WAITALL) && k > 0 && static_cast<size_t>(r) < n && (k = simRead(fd, static_cast<char*>(b) + r, n - static_cast<size_t>(r))) > 0) r += k;
	return r;
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
	if (!active) return syscall(SYS_recvfrom, fd, b, n, flags, a, l);
	if (l) *l = 0;
	return recv(fd, b, n, flags);
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
	if (!active) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
	OpenFile* f = get(fd);
	if (f && !f->socket && f->device < 0) { errno = ENOTSOCK; return -1; }
	return simWrite(fd, b, n, (flags & MSG_NOSIGNAL) != 0);
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
	if (!active) return syscall(SYS_sendto, fd, b, n, flags, a, l);
	return send(fd, b, n, flags);
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t l) {
	if (!active) return static_cast<int>(syscall(SYS_setsockopt, fd, level, name, v, l));
	return 0;
}

// --- processes ---------------------------------------------------------------

pid_t fork() {
	if (!active) return realFork();
	tick();
	if (W.onFork) { int r = W.onFork(); if (r < 0) { errno = -r; return -1; } return r; }
	errno = EAGAIN;
	return -1;
}
pid_t waitpid(pid_t pid, int* status, int options) {
	if (!active) return realWaitpid(pid, status, options);
	tick();
	if (W.onWait) { int r = W.onWait(pid, status, options); if (r < 0) { errno = -r; return -1; } return r; }
	errno = ECHILD;
	return -1;
}
pid_t wait(int* status) { return waitpid(-1, status, 0); }
int system(const char* cmd) {
	REAL(int, "system", const char*);
	if (!active) return real(cmd);
	tick();
	if (!cmd) return 1;
	if (W.systemCall) return W.systemCall(cmd);
	return 127 << 8;
}
struct PipeState { std::string data; size_t pos = 0; int status = 0; };
static std::map<FILE*, PipeState*> pipes;
static ssize_t pipeRead(void* c, char* buf, size_t n) {
	tick();
	auto* p = static_cast<PipeState*>(c);
	if (fault(W.faults.readEintr, "pipe-eintr")) { errno = EINTR; return -1; }
	if (fault(W.faults.readFail, "pipe-error")) { errno = EIO; return -1; }
	size_t k = std::min(n, p->data.size() - p->pos);
	if (k > 1 && fault(W.faults.readShort, "pipe-short")) k = 1 + draw(static_cast<uint32_t>(k - 1));
	memcpy(buf, p->data.data() + p->pos, k);
	p->pos += k;
	return static_cast<ssize_t>(k);
}
FILE* popen(const char* cmd, const char* mode) {
	REAL(FILE*, "popen", const char*, const char*);
	if (!active) return real(cmd, mode);
	tick();
	auto* p = new PipeState;
	p->status = W.popenCall ? W.popenCall(cmd, p->data) : -ENOSYS;
	if (p->status < 0) { errno = -p->status; delete p; return nullptr; }
	cookie_io_functions_t io = { pipeRead, nullptr, nullptr, nullptr };
	FILE* f = fopencookie(p, "r", io);
	if (streamBuffer) setvbuf(f, static_cast<char*>(malloc(streamBuffer)), _IOFBF, streamBuffer);
	pipes[f] = p;
	++W.opens;
	return f;
}
int pclose(FILE* f) {
	REAL(int, "pclose", FILE*);
	auto it = pipes.find(f);
	if (it == pipes.end()) return real(f);
	int st = it->second->status;
	fclose(f);
	delete it->second;
	pipes.erase(it);
	++W.closes;
	return st << 8;
}
void exit(int code) {
	REAL(void, "exit", int);
	if (!active) { real(code); realExit(code); }
	if (inProcess) endProcess(code);
	if (W.onExit) W.onExit(code);
	harnessError("program called exit() outside a simulated process");
}
void _exit(int code) {
	if (active && inProcess) { ship(0); realExit(code & 0xff); }
	if (active && W.onExit) W.onExit(code);
	realExit(code);
}

int uname(struct utsname* u) {
	REAL(int, "uname", struct utsname*);
	if (!active) return real(u);
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux"); strcpy(u->nodename, "sim"); strcpy(u->release, "1.0"); strcpy(u->version, "1"); strcpy(u->machine, "sim64");
	return 0;
}

// --- environment ---------------------------------------------------------------

int setenv(const char* n, const char* v, int o) {
	REAL(int, "setenv", const char*, const char*, int);
	if (active && W.onSetenv) { tick(); int e = W.onSetenv(n, v); if (e) { errno = e; return -1; } }
	return real(n, v, o);
}
int putenv(char* s) {
	REAL(int, "putenv", char*);
	if (active && W.onSetenv) { tick(); int e = W.onSetenv(s, nullptr); if (e) { errno = e; return -1; } }
	return real(s);
}
void* dlopen(const char* f, int flags) {
	REAL(void*, "dlopen", const char*, int);
	if (!active) return real(f, flags);
	return nullptr;
}

}
