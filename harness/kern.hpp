// A model of the parts of Linux the daemon talks to, put between the real
// daemon objects and libc: every call of the redirected names in the daemon's
// object files lands in sim_*. Device nodes are memfds (an inode identifies an
// open file description through dup and SCM_RIGHTS), sockets, pipes and poll
// are real, consoles follow the kernel's vt_ioctl.c.
#pragma once
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/major.h>
#include <linux/vt.h>
#include <limits.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/sysmacros.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

#include <unordered_map>

#include "common.hpp"

#define K_DRM_SET_MASTER  _IO('d', 0x1e)
#define K_DRM_DROP_MASTER _IO('d', 0x1f)
#define K_HIDIOCREVOKE    _IOW('H', 0x0D, int)

namespace k {
using namespace vh;

// ---------------- fake file system ----------------
enum NodeType { N_DIR, N_FILE, N_DRM, N_RENDER, N_EVDEV, N_HIDRAW, N_CONS, N_LINK };
struct Node {
	NodeType type;
	std::string target;   // N_LINK
	int open_errno = 0;   // error of open()
	int tty = 0;
};
inline std::map<std::string, Node> fs;

inline void fs_build() {
	fs.clear();
	for (const char *d : {"/", "/dev", "/dev/dri", "/dev/dri/by-path", "/dev/input", "/dev/input/by-path", "/etc",
			      "/tmp", "/home", "/home/u", "/sys", "/dev/snd"})
		fs[d] = {N_DIR, "", 0, 0};
	for (int i = 0; i < 140; i++) fs["/dev/input/event" + std::to_string(i)] = {N_EVDEV, "", 0, 0};
	for (int i = 0; i < 4; i++) fs["/dev/hidraw" + std::to_string(i)] = {N_HIDRAW, "", 0, 0};
	for (int i = 0; i < 3; i++) fs["/dev/dri/card" + std::to_string(i)] = {N_DRM, "", 0, 0};
	fs["/dev/dri/renderD128"] = {N_RENDER, "", 0, 0};
	for (int i = 0; i <= 63; i++) fs["/dev/tty" + std::to_string(i)] = {N_CONS, "", 0, i};
	for (const char *f : {"/etc/shadow", "/dev/mem", "/dev/null", "/dev/sda", "/dev/input/mouse0", "/dev/input/mice",
			      "/dev/drix", "/tmp/event0", "/home/u/card0", "/dev/inputevent0", "/dev/dri2", "/dev/snd/pcm0",
			      "/dev/inpu", "/dev/hidra", "/dev/input/even", "/dev/uinput", "/dev/fb0"})
		fs[f] = {N_FILE, "", 0, 0};
	fs["/dev/input/event200"] = {N_EVDEV, "", ENODEV, 0};
	fs["/dev/input/event201"] = {N_EVDEV, "", EACCES, 0};
	fs["/dev/dri/card9"] = {N_DRM, "", EACCES, 0};
	fs["/dev/hidraw9"] = {N_HIDRAW, "", ENXIO, 0};
	auto ln = [](const char *p, const char *t) { fs[p] = {N_LINK, t, 0, 0}; };
	ln("/dev/input/by-path/kbd", "../event0");
	ln("/dev/input/by-path/ptr", "/dev/input/event1");
	ln("/dev/dri/by-path/gpu", "../card0");
	ln("/tmp/card", "/dev/dri/card0");
	ln("/tmp/kbd", "/dev/input/event2");
	ln("/home/u/dev", "/dev");
	ln("/dev/input/eventlink", "/etc/shadow");
	ln("/dev/input/event_disk", "../sda");
	ln("/dev/dri/evil", "../../etc/shadow");
	ln("/dev/dri/mem", "/dev/mem");
	ln("/dev/hidrawlink", "/dev/sda");
	ln("/tmp/loop", "/tmp/loop");
	ln("/tmp/dangling", "/dev/input/event999");
	ln("/tmp/tty", "/dev/tty1");
	ln("/tmp/c1", "c2");
	ln("/tmp/c2", "../dev/dri/card1");
}

// realpath(3) over the fake file system. Returns 0 or an errno.
inline int fs_resolve(const std::string &in, std::string &out) {
	if (in.empty()) return ENOENT;
	if (in.size() >= PATH_MAX) return ENAMETOOLONG;
	std::string rest = in, cur = "";
	int links = 0;
	if (rest[0] != '/') rest = "/home/u/" + rest; // the daemon's working directory
	while (true) {
		size_t i = 0;
		while (i < rest.size() && rest[i] == '/') i++;
		if (i == rest.size()) {
			// trailing slashes require a directory
			if (i > 0 && !cur.empty()) {
				auto it = fs.find(cur);
				if (it != fs.end() && it->second.type != N_DIR) return ENOTDIR;
			}
			break;
		}
		size_t j = rest.find('/', i);
		std::string comp = rest.substr(i, j == std::string::npos ? std::string::npos : j - i);
		rest = j == std::string::npos ? "" : rest.substr(j);
		// the current prefix must be a directory
		if (!cur.empty()) {
			auto it = fs.find(cur);
			if (it == fs.end()) return ENOENT;
			if (it->second.type != N_DIR) return ENOTDIR;
		}
		if (comp.size() > 255) return ENAMETOOLONG;
		if (comp == ".") continue;
		if (comp == "..") {
			size_t p = cur.rfind('/');
			if (p != std::string::npos) cur = cur.substr(0, p);
			continue;
		}
		std::string next = cur + "/" + comp;
		auto it = fs.find(next);
		if (it == fs.end()) return ENOENT;
		if (it->second.type == N_LINK) {
			if (++links > 40) return ELOOP;
			std::string t = it->second.target;
			if (t[0] == '/') cur = "";
			rest = t + (rest.empty() ? "" : rest);
			if (rest[0] != '/') rest = "/" + rest;
			continue;
		}
		cur = next;
	}
	out = cur.empty() ? "/" : cur;
	return 0;
}

// ---------------- open file descriptions ----------------
struct Ofd {
	uint64_t ino = 0;
	std::string path;
	NodeType type = N_FILE;
	int vt = 0;             // N_CONS
	bool master = false;    // DRM
	bool revoked = false;   // evdev/hidraw
	bool attempted = false; // a revocation was attempted since it last worked
	uint64_t attempt_round = 0; // when
	int server_fds = 0;
	bool delivered = false; // handed to a client
	int owner = -1;         // client id
	int owner_epoch = 0;
	uint64_t seq = 0;
	bool is_dev() const { return type == N_DRM || type == N_EVDEV || type == N_HIDRAW || type == N_RENDER; }
	bool needs_revoke() const { return type == N_DRM || type == N_EVDEV || type == N_HIDRAW; }
	bool working() const {
		if (type == N_DRM) return master;
		if (type == N_EVDEV || type == N_HIDRAW) return !revoked;
		return false;
	}
	bool exists() const { return server_fds > 0 || delivered; }
};
inline std::map<uint64_t, Ofd> ofds; // by inode
inline uint64_t ofd_seq = 0;
inline uint64_t poll_round = 1; // how often the code has gone to sleep

inline uint64_t fd_ino(int fd) {
	struct stat s;
	if (fstat(fd, &s) != 0) return 0;
	return s.st_ino;
}
inline Ofd *ofd_of(int fd) {
	auto it = ofds.find(fd_ino(fd));
	return it == ofds.end() ? nullptr : &it->second;
}

// ---------------- descriptors owned by the code under test ----------------
enum FdKind { F_OTHER, F_SOCK, F_PIPE, F_CLIENT, F_DEV, F_TTY, F_PASSED };
struct FdInfo {
	FdKind kind;
	int client;
	uint64_t ino;
};
inline std::map<int, FdInfo> fds;
inline std::set<int> foreign_ok; // descriptors the code was given (may close once)
inline int live_kind(FdKind kd) {
	int n = 0;
	for (auto &f : fds)
		if (f.second.kind == kd) n++;
	return n;
}

// ---------------- allocations of the code under test ----------------
inline std::unordered_map<void *, size_t> allocs;

// ---------------- faults ----------------
struct FaultPlan {
	bool active = false;   // counting/injecting
	int permille = 0;      // random failures
	int64_t nth = -1;      // fail exactly this call
	int64_t nth2 = -1;
	int err_pick = 0;
	bool allow_poll_fail = false;
};
inline FaultPlan plan;
inline int64_t callno = 0;
inline int64_t injected = 0;
inline int64_t injected_alloc = 0, injected_poll = 0;
inline std::map<std::string, uint64_t> injected_kinds;
inline std::function<void(const char *, int err, int fd)> on_fault;
inline bool fault(const char *name, std::initializer_list<int> errs, int fd = -1) {
	if (!plan.active || errs.size() == 0) return false;
	int64_t n = callno++;
	bool hit = n == plan.nth || n == plan.nth2 || (plan.permille && rng.permille(plan.permille));
	if (!hit) return false;
	int idx = plan.permille ? (int)rng.below(errs.size()) : plan.err_pick % (int)errs.size();
	errno = *(errs.begin() + idx);
	injected++;
	injected_kinds[name]++;
	tr("FAULT %s call %lld -> %s", name, (long long)n, strerror(*(errs.begin() + idx)));
	if (on_fault) on_fault(name, *(errs.begin() + idx), fd);
	errno = *(errs.begin() + idx);
	return true;
}

// ---------------- consoles ----------------
struct Vt {
	int kd = KD_TEXT;
	int kb = K_UNICODE;
	int mode = VT_AUTO;
	int relsig = 0, acqsig = 0;
	int newvt = -1;      // switch waiting for release
	bool acq_unacked = false;
	bool rel_sent = false;
};
struct Console {
	int fg = 1;
	std::map<int, Vt> vts;
	uint64_t switches = 0, refused = 0;
	Vt &vt(int n) { return vts[n]; }
};
inline Console con;
inline bool signals_installed(int sig) {
	struct sigaction sa;
	sigaction(sig, nullptr, &sa);
	return sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN;
}
inline uint64_t signals_raised = 0;
inline bool deliver(int sig) {
	if (!signals_installed(sig)) {
		tr("kernel: signal %d has no handler", sig);
		return false;
	}
	tr("kernel: raise signal %d", sig);
	signals_raised++;
	raise(sig);
	return true;
}
inline void con_complete(int n) {
	tr("kernel: console switch %d -> %d", con.fg, n);
	con.fg = n;
	con.switches++;
	Vt &v = con.vt(n);
	if (v.mode == VT_PROCESS && v.acqsig) {
		v.acq_unacked = true;
		deliver(v.acqsig);
	}
}
inline void con_change(int n) {
	Vt &v = con.vt(con.fg);
	if (v.mode == VT_PROCESS && v.relsig) {
		v.newvt = n;
		v.rel_sent = true;
		if (deliver(v.relsig)) return;
		v.mode = VT_AUTO;
		v.newvt = -1;
	}
	if (v.kd == KD_GRAPHICS) {
		con.refused++;
		return;
	}
	con_complete(n);
}
// set_console(): a user's or ioctl's request to bring VT n to the foreground
inline int con_set(int n) {
	Vt &v = con.vt(con.fg);
	if (v.mode == VT_AUTO && v.kd == KD_GRAPHICS) {
		con.refused++;
		return EINVAL;
	}
	if (n != con.fg) con_change(n);
	return 0;
}

// ---------------- hooks into the monitor ----------------
struct Hooks {
	std::function<void(int fd, const char *data, size_t n, const std::vector<int> &passed)> recv;
	std::function<void(int fd)> recv_eof;
	// how many bytes the peer of fd can take now (-1: unlimited)
	std::function<long(int fd)> window;
	std::function<void(int fd, const char *data, size_t n, const std::vector<int> &sent)> sent;
	std::function<void(int fd)> send_blocked;
	std::function<void(int fd, size_t left)> send_left; // what an attempt left unsent
	std::function<void(int fd, int err)> send_failed;
	std::function<int(int newfd)> accepted; // returns client id
	std::function<void(int fd, const FdInfo &)> closing;
	std::function<void(int fd, int how)> shut;
	std::function<void(Ofd &)> let_go; // the code closed its last descriptor of a device
	std::function<void(Ofd &, int flags)> opened;
	std::function<void(const std::string &path, int flags)> opening;
	std::function<void(Ofd &, unsigned long req, int result)> dev_ioctl;
	std::function<void(int vt, unsigned long req, long arg, int result)> tty_ioctl;
	std::function<int(struct pollfd *, nfds_t, int)> poll;
	std::function<void()> mid; // between any two calls
	std::function<int(int *)> socketpair;
	std::function<bool(int)> closed_again; // tolerate close() of this closed descriptor
	std::function<size_t(int fd, size_t want)> read_limit;
};
inline Hooks hk;
inline void mid() {
	if (hk.mid) {
		int e = errno;
		hk.mid();
		errno = e;
	}
}
inline void reset() {
	for (auto it = ofds.begin(); it != ofds.end();) it = ofds.erase(it);
	fds.clear();
	allocs.clear();
	con = Console();
	plan = FaultPlan();
	on_fault = nullptr;
	callno = injected = injected_alloc = injected_poll = 0;
	ofd_seq = 0;
	foreign_ok.clear();
}

inline int reg(int fd, FdKind kd, int client = -1, uint64_t ino = 0) {
	if (fd < 0) return fd;
	fds[fd] = {kd, client, ino};
	return fd;
}

inline int do_open(const std::string &path, int flags) {
	// resolve parents and follow the final link unless O_NOFOLLOW
	std::string full;
	auto slash = path.rfind('/');
	std::string dir = slash == std::string::npos ? "." : slash == 0 ? "/" : path.substr(0, slash);
	std::string base = slash == std::string::npos ? path : path.substr(slash + 1);
	std::string rdir;
	int e = fs_resolve(dir, rdir);
	if (e) return errno = e, -1;
	std::string direct = (rdir == "/" ? "" : rdir) + "/" + base;
	auto it = fs.find(direct);
	if (it != fs.end() && it->second.type == N_LINK) {
		if (flags & O_NOFOLLOW) return errno = ELOOP, -1;
		e = fs_resolve(path, full);
	} else {
		e = fs_resolve(path, full);
	}
	if (e) return errno = e, -1;
	Node &nd = fs[full];
	if (nd.open_errno) return errno = nd.open_errno, -1;
	if (nd.type == N_DIR && (flags & O_ACCMODE) != O_RDONLY) return errno = EISDIR, -1;
	int fd = memfd_create("dev", MFD_CLOEXEC);
	if (fd < 0) broken("memfd_create: %s", strerror(errno));
	Ofd o;
	o.ino = fd_ino(fd);
	o.path = full;
	o.type = nd.type;
	o.server_fds = 1;
	o.seq = ++ofd_seq;
	if (nd.type == N_CONS) o.vt = nd.tty == 0 ? con.fg : nd.tty;
	if (nd.type == N_DRM) {
		// the first opener of a DRM device becomes its master
		bool have = false;
		for (auto &x : ofds)
			if (x.second.path == full && x.second.exists() && x.second.master) have = true;
		o.master = !have;
	}
	ofds[o.ino] = o;
	reg(fd, nd.type == N_CONS ? F_TTY : F_DEV, -1, o.ino);
	return fd;
}
inline void ofd_gc() {
	for (auto it = ofds.begin(); it != ofds.end();) {
		if (!it->second.exists()) it = ofds.erase(it);
		else ++it;
	}
}
} // namespace k

// ---------------- the redirected libc ----------------
extern "C" {
using namespace k;

static inline bool is_fake_path(const char *p) {
	return strncmp(p, run.scratch.c_str(), run.scratch.size()) != 0 || run.scratch.empty();
}

static int sim_open_common(const char *path, int flags, mode_t mode) {
	mid();
	if (!is_fake_path(path)) return reg(open(path, flags, mode), F_OTHER);
	bool tty = strncmp(path, "/dev/tty", 8) == 0;
	if (hk.opening) hk.opening(path, flags);
	if (fault(tty ? "open-tty" : "open", {EMFILE, ENOMEM, EACCES, ENFILE, ENODEV})) return -1;
	int fd = do_open(path, flags);
	int e = errno;
	tr("server open(%s, 0%o) = %d%s%s", path, flags, fd, fd < 0 ? " " : "", fd < 0 ? strerror(e) : "");
	if (fd >= 0 && hk.opened) hk.opened(*ofd_of(fd), flags);
	errno = e;
	return fd;
}
#define MODE_ARG mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = (mode_t)va_arg(ap, int); va_end(ap); }
int sim_open(const char *path, int flags, ...) { MODE_ARG return sim_open_common(path, flags, mode); }
int sim_open64(const char *path, int flags, ...) { MODE_ARG return sim_open_common(path, flags, mode); }
int sim___open_2(const char *path, int flags) { return sim_open_common(path, flags, 0); }
int sim_openat(int, const char *path, int flags, ...) { MODE_ARG return sim_open_common(path, flags, mode); }
int sim_openat64(int, const char *path, int flags, ...) { MODE_ARG return sim_open_common(path, flags, mode); }

int sim_close(int fd) {
	mid();
	auto it = fds.find(fd);
	if (it == fds.end()) {
		if (fd < 0) return errno = EBADF, -1;
		if (foreign_ok.erase(fd)) return close(fd);
		if (hk.closed_again && hk.closed_again(fd)) return errno = EBADF, -1;
		violation("fd.double-close", "close(%d) of a descriptor the code does not own (double close or foreign)", fd);
	}
	FdInfo fi = it->second;
	tr("server close(%d) kind %d", fd, fi.kind);
	st("close");
	if (hk.closing) hk.closing(fd, fi);
	fds.erase(fd);
	if (fi.ino) {
		auto o = ofds.find(fi.ino);
		if (o != ofds.end()) {
			o->second.server_fds--;
			if (o->second.server_fds == 0 && hk.let_go) hk.let_go(o->second);
			if (!o->second.exists()) {
				// last reference: master is dropped by the kernel
				o->second.master = false;
				ofds.erase(o);
			}
		}
	}
	return close(fd);
}

static int sim_dup_common(int fd, int newfd) {
	auto it = fds.find(fd);
	FdInfo fi = it == fds.end() ? FdInfo{F_OTHER, -1, 0} : it->second;
	if (newfd >= 0) {
		FdInfo nfi = fi;
		reg(newfd, nfi.kind, nfi.client, nfi.ino);
		if (fi.ino && ofds.count(fi.ino)) ofds[fi.ino].server_fds++;
	}
	return newfd;
}
int sim_dup(int fd) {
	mid();
	if (fault("dup", {EMFILE, ENOMEM})) return -1;
	return sim_dup_common(fd, dup(fd));
}
int sim_dup2(int fd, int n) { return sim_dup_common(fd, dup2(fd, n)); }
int sim_dup3(int fd, int n, int f) { return sim_dup_common(fd, dup3(fd, n, f)); }

static int sim_fcntl_common(int fd, int cmd, long arg) {
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
		if (fault("dup", {EMFILE, ENOMEM})) return -1;
		return sim_dup_common(fd, fcntl(fd, cmd, (int)arg));
	}
	if (fault("fcntl", {EPERM, ENOMEM}, fd)) return -1;
	return fcntl(fd, cmd, arg);
}
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl_common(fd, cmd, a);
}
int sim_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl_common(fd, cmd, a);
}

static int dev_ioctl(Ofd &o, unsigned long req, long arg) {
	uint32_t r = (uint32_t)req;
	switch (o.type) {
	case N_DRM:
	case N_RENDER:
		if (r == K_DRM_SET_MASTER) {
			if (o.type == N_RENDER) return EACCES;
			for (auto &x : ofds)
				if (&x.second != &o && x.second.path == o.path && x.second.exists() && x.second.master) return EBUSY;
			o.master = true;
			return 0;
		}
		if (r == K_DRM_DROP_MASTER) {
			if (o.type == N_RENDER) return EACCES;
			if (!o.master) return EINVAL;
			o.master = false;
			return 0;
		}
		return ENOTTY;
	case N_EVDEV:
		if (r == (uint32_t)EVIOCREVOKE) {
			if (arg) return EINVAL;
			if (o.revoked) return ENODEV;
			o.revoked = true;
			return 0;
		}
		return o.revoked ? ENODEV : EINVAL;
	case N_HIDRAW:
		if (r == (uint32_t)K_HIDIOCREVOKE) {
			if (arg) return EINVAL;
			if (o.revoked) return ENODEV;
			o.revoked = true;
			return 0;
		}
		return EINVAL;
	default: return ENOTTY;
	}
}
static int tty_ioctl(Ofd &o, unsigned long req, long arg) {
	Vt &v = con.vt(o.vt);
	switch (req) {
	case KDSETMODE:
		if (arg != KD_TEXT && arg != KD_GRAPHICS) return EINVAL;
		v.kd = (int)arg;
		return 0;
	case KDSKBMODE:
		if (arg != K_RAW && arg != K_XLATE && arg != K_MEDIUMRAW && arg != K_UNICODE && arg != K_OFF) return EINVAL;
		v.kb = (int)arg;
		return 0;
	case VT_SETMODE: {
		struct vt_mode *m = (struct vt_mode *)arg;
		if (m->mode != VT_AUTO && m->mode != VT_PROCESS) return EINVAL;
		v.mode = m->mode;
		v.relsig = m->relsig;
		v.acqsig = m->acqsig;
		v.newvt = -1;
		return 0;
	}
	case VT_GETSTATE: {
		struct vt_stat *s = (struct vt_stat *)arg;
		s->v_active = (unsigned short)con.fg;
		s->v_signal = 0;
		s->v_state = 1;
		return 0;
	}
	case VT_ACTIVATE:
		if (arg <= 0 || arg > MAX_NR_CONSOLES) return ENXIO;
		con_set((int)arg);
		return 0;
	case VT_RELDISP:
		if (v.mode != VT_PROCESS) return EINVAL;
		if (v.newvt < 0) {
			if (arg != VT_ACKACQ) return EINVAL;
			v.acq_unacked = false;
			return 0;
		}
		if (arg == 0) {
			v.newvt = -1;
			v.rel_sent = false;
			return 0;
		} else {
			int n = v.newvt;
			v.newvt = -1;
			v.rel_sent = false;
			con_complete(n);
			return 0;
		}
	case VT_WAITACTIVE: return 0;
	default: return EINVAL;
	}
}
int sim_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	long arg = va_arg(ap, long);
	va_end(ap);
	mid();
	Ofd *o = ofd_of(fd);
	if (!o) {
		if (fcntl(fd, F_GETFD) == -1) violation("fd.bad-use", "ioctl on bad descriptor %d", fd);
		return ioctl(fd, req, arg);
	}
	bool tty = o->type == N_CONS;
	uint64_t ino = o->ino;
	bool flt = false;
	int res;
	if (tty) {
		std::string name = req == VT_GETSTATE ? "ioctl-getstate" : req == VT_RELDISP ? "ioctl-reldisp" : "ioctl-tty";
		flt = fault(name.c_str(), {EIO, EPERM, ENOMEM});
		if (req == VT_SETMODE || req == VT_GETSTATE) tr("server ioctl tty%d %#lx", o->vt, req);
		else tr("server ioctl tty%d %#lx arg %ld%s", o->vt, req, arg, flt ? " (fails)" : "");
		int vt = o->vt;
		// the monitor sees the request before it takes effect (VT_RELDISP switches at once)
		if (hk.tty_ioctl) hk.tty_ioctl(vt, req, arg, flt ? -1 : 0);
		res = flt ? errno : tty_ioctl(*o, req, arg);
	} else {
		flt = fault("ioctl-dev", {EIO, EPERM, EBUSY, ENOMEM});
		res = flt ? errno : dev_ioctl(*o, req, arg);
		tr("server ioctl %s #%llu %s = %s", o->path.c_str(), (unsigned long long)o->seq,
		   (uint32_t)req == K_DRM_SET_MASTER     ? "SET_MASTER"
		   : (uint32_t)req == K_DRM_DROP_MASTER  ? "DROP_MASTER"
		   : (uint32_t)req == (uint32_t)EVIOCREVOKE ? "EVIOCREVOKE"
		   : (uint32_t)req == K_HIDIOCREVOKE     ? "HIDIOCREVOKE"
							 : "?",
		   res ? strerror(res) : "0");
		uint32_t r = (uint32_t)req;
		if ((o->type == N_DRM && r == K_DRM_DROP_MASTER) || (o->type == N_EVDEV && r == (uint32_t)EVIOCREVOKE) ||
		    (o->type == N_HIDRAW && r == K_HIDIOCREVOKE))
			o->attempted = true, o->attempt_round = poll_round;
		if (o->type == N_DRM && r == K_DRM_SET_MASTER) o->attempted = false;
		if (hk.dev_ioctl) hk.dev_ioctl(ofds[ino], req, res);
	}
	st("ioctl");
	if (res) return errno = res, -1;
	return 0;
}

char *sim_realpath(const char *path, char *out) {
	mid();
	if (path == nullptr) return errno = EINVAL, nullptr;
	if (!is_fake_path(path)) return realpath(path, out);
	if (fault("realpath", {ENOMEM, EACCES, EIO})) return nullptr;
	std::string r;
	int e = fs_resolve(path, r);
	if (e) return errno = e, nullptr;
	if (!out) {
		out = (char *)malloc(r.size() + 1);
		allocs[out] = r.size() + 1;
	}
	strcpy(out, r.c_str());
	return out;
}
char *sim___realpath_chk(const char *path, char *out, size_t) { return sim_realpath(path, out); }
char *sim_canonicalize_file_name(const char *path) { return sim_realpath(path, nullptr); }

// Not used by the code as it is; a change may look at its devices.
static void fake_stat(const std::string &path, const Node &nd, struct stat *s) {
	memset(s, 0, sizeof *s);
	s->st_nlink = 1;
	s->st_ino = std::hash<std::string>()(path) | 1;
	mode_t t = nd.type == N_DIR ? S_IFDIR : nd.type == N_LINK ? S_IFLNK : nd.type == N_FILE && path.compare(0, 5, "/dev/") ? S_IFREG : S_IFCHR;
	s->st_mode = t | 0600;
	if (S_ISCHR(t)) {
		unsigned maj = nd.type == N_CONS ? 4 : nd.type == N_EVDEV ? 13 : nd.type == N_DRM || nd.type == N_RENDER ? 226 : 240;
		s->st_rdev = makedev(maj, (unsigned)(s->st_ino % 200));
	}
}
static int sim_stat_common(const char *path, struct stat *s, bool follow) {
	mid();
	if (!is_fake_path(path)) return follow ? stat(path, s) : lstat(path, s);
	std::string p = path, dir, full;
	int e = fs_resolve(p, full);
	if (!follow) {
		auto slash = p.rfind('/');
		std::string base = slash == std::string::npos ? p : p.substr(slash + 1);
		int de = fs_resolve(slash == std::string::npos ? "." : slash == 0 ? "/" : p.substr(0, slash), dir);
		std::string direct = (dir == "/" ? "" : dir) + "/" + base;
		auto it = fs.find(direct);
		if (!de && it != fs.end() && it->second.type == N_LINK) {
			fake_stat(direct, it->second, s);
			return 0;
		}
	}
	if (e) return errno = e, -1;
	fake_stat(full, fs[full], s);
	return 0;
}
int sim_stat(const char *p, struct stat *s) { return sim_stat_common(p, s, true); }
int sim_stat64(const char *p, struct stat *s) { return sim_stat_common(p, s, true); }
int sim_lstat(const char *p, struct stat *s) { return sim_stat_common(p, s, false); }
int sim_lstat64(const char *p, struct stat *s) { return sim_stat_common(p, s, false); }
int sim_fstatat(int, const char *p, struct stat *s, int f) { return sim_stat_common(p, s, !(f & AT_SYMLINK_NOFOLLOW)); }
int sim_fstatat64(int, const char *p, struct stat *s, int f) { return sim_stat_common(p, s, !(f & AT_SYMLINK_NOFOLLOW)); }
int sim_fstat(int fd, struct stat *s) {
	if (fd < 0) return errno = EBADF, -1;
	if (Ofd *o = ofd_of(fd)) {
		fake_stat(o->path, fs[o->path], s);
		return 0;
	}
	return fstat(fd, s);
}
int sim_fstat64(int fd, struct stat *s) { return sim_fstat(fd, s); }
int sim_access(const char *p, int) {
	struct stat s;
	return sim_stat_common(p, &s, true);
}
ssize_t sim_readlink(const char *p, char *b, size_t n) {
	struct stat s;
	if (sim_stat_common(p, &s, false) != 0) return -1;
	if (!S_ISLNK(s.st_mode)) return errno = EINVAL, -1;
	if (!is_fake_path(p)) return readlink(p, b, n);
	std::string q = p, dir;
	auto slash = q.rfind('/');
	fs_resolve(slash == 0 ? "/" : q.substr(0, slash), dir);
	const std::string &t = fs[(dir == "/" ? "" : dir) + "/" + q.substr(slash + 1)].target;
	n = std::min(n, t.size());
	memcpy(b, t.data(), n);
	return (ssize_t)n;
}

static int sim_accept_common(int fd, struct sockaddr *a, socklen_t *l, int flags) {
	mid();
	if (fcntl(fd, F_GETFD) == -1) violation("fd.bad-use", "accept on bad descriptor %d", fd);
	if (fault("accept", {EMFILE, ENFILE, ENOMEM, ECONNABORTED})) return -1;
	int n = accept4(fd, a, l, flags);
	if (n < 0) return n;
	reg(n, F_CLIENT);
	int id = hk.accepted ? hk.accepted(n) : -1;
	fds[n].client = id;
	tr("server accept = %d (client %d)", n, id);
	return n;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return sim_accept_common(fd, a, l, 0); }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { return sim_accept_common(fd, a, l, f); }

ssize_t sim_recvmsg(int fd, struct msghdr *msg, int flags) {
	mid();
	auto it = fds.find(fd);
	if (it == fds.end() && fcntl(fd, F_GETFD) == -1)
		violation("fd.bad-use", "recvmsg on descriptor %d it does not own", fd);
	if (fault("recvmsg", {ECONNRESET, ENOMEM, EINTR}, fd)) return -1;
	size_t want = 0;
	for (size_t i = 0; i < msg->msg_iovlen; i++) want += msg->msg_iov[i].iov_len;
	struct iovec iov[8];
	struct msghdr m = *msg;
	size_t lim = hk.read_limit ? hk.read_limit(fd, want) : want;
	if (lim < want && lim > 0) {
		size_t n = 0, left = lim;
		for (size_t i = 0; i < msg->msg_iovlen && i < 8 && left; i++) {
			iov[n] = msg->msg_iov[i];
			if (iov[n].iov_len > left) iov[n].iov_len = left;
			left -= iov[n].iov_len;
			n++;
		}
		m.msg_iov = iov;
		m.msg_iovlen = n;
	}
	ssize_t r = recvmsg(fd, &m, flags);
	int e = errno;
	msg->msg_controllen = m.msg_controllen;
	msg->msg_flags = m.msg_flags;
	msg->msg_namelen = m.msg_namelen;
	if (r > 0) {
		std::string data;
		size_t left = (size_t)r;
		for (size_t i = 0; i < m.msg_iovlen && left; i++) {
			size_t c = m.msg_iov[i].iov_len < left ? m.msg_iov[i].iov_len : left;
			data.append((char *)m.msg_iov[i].iov_base, c);
			left -= c;
		}
		std::vector<int> passed;
		if (m.msg_controllen > 0)
			for (struct cmsghdr *c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c)) {
				if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS) continue;
				size_t n = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
				for (size_t i = 0; i < n; i++) {
					int x;
					memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x);
					passed.push_back(x);
					reg(x, F_PASSED, it == fds.end() ? -1 : it->second.client);
				}
			}
		if (hk.recv) hk.recv(fd, data.data(), data.size(), passed);
	} else if (r == 0 && hk.recv_eof) hk.recv_eof(fd);
	errno = e;
	return r;
}
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) {
	struct iovec io = {buf, n};
	struct msghdr m = {};
	m.msg_iov = &io;
	m.msg_iovlen = 1;
	return sim_recvmsg(fd, &m, flags);
}
ssize_t sim_read(int fd, void *buf, size_t n) {
	mid();
	auto it = fds.find(fd);
	if (it == fds.end() && fcntl(fd, F_GETFD) == -1) violation("fd.bad-use", "read on bad descriptor %d", fd);
	if (it != fds.end() && it->second.kind == F_CLIENT) return sim_recv(fd, buf, n, 0);
	if (fault("read", {EINTR})) return -1;
	return read(fd, buf, n);
}

ssize_t sim_sendmsg(int fd, const struct msghdr *msg, int flags) {
	mid();
	auto it = fds.find(fd);
	if (it == fds.end() && fcntl(fd, F_GETFD) == -1)
		violation("fd.bad-use", "sendmsg on descriptor %d it does not own", fd);
	if (fault("sendmsg", {EPIPE, ENOBUFS, ENOMEM, EINTR}, fd)) {
		int e = errno;
		if (hk.send_failed && e != EINTR) hk.send_failed(fd, e);
		errno = e;
		return -1;
	}
	size_t want = 0;
	for (size_t i = 0; i < msg->msg_iovlen; i++) want += msg->msg_iov[i].iov_len;
	long w = hk.window ? hk.window(fd) : -1;
	if (w == 0 && want > 0) {
		if (!(flags & MSG_DONTWAIT)) {
			int fl = fcntl(fd, F_GETFL);
			if (!(fl & O_NONBLOCK)) violation("block.send", "daemon would block in a send to a client that does not read");
		}
		if (hk.send_blocked) hk.send_blocked(fd);
		if (hk.send_left) hk.send_left(fd, want);
		return errno = EAGAIN, -1;
	}
	size_t lim = w < 0 ? want : ((size_t)w < want ? (size_t)w : want);
	struct iovec iov[8];
	struct msghdr m = *msg;
	size_t n = 0, left = lim;
	for (size_t i = 0; i < msg->msg_iovlen && i < 8 && left; i++) {
		iov[n] = msg->msg_iov[i];
		if (iov[n].iov_len > left) iov[n].iov_len = left;
		left -= iov[n].iov_len;
		n++;
	}
	m.msg_iov = iov;
	m.msg_iovlen = n;
	std::vector<int> sfds;
	if (m.msg_control && m.msg_controllen > 0)
		for (struct cmsghdr *c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c)) {
			if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS) continue;
			size_t cn = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
			for (size_t i = 0; i < cn; i++) {
				int x;
				memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x);
				sfds.push_back(x);
			}
		}
	// look at the bytes through a copy so that uninitialised ones are noticed by memcheck
	std::string data;
	for (size_t i = 0; i < n; i++) data.append((char *)iov[i].iov_base, iov[i].iov_len);
	ssize_t r = sendmsg(fd, &m, flags);
	int e = errno;
	if (hk.send_left) hk.send_left(fd, want - (r > 0 ? (size_t)r : 0));
	if (r > 0) {
		if (hk.sent) hk.sent(fd, data.data(), (size_t)r, sfds);
	} else if (r < 0) {
		tr("server sendmsg(%d) fails: %s", fd, strerror(e));
		if (hk.send_failed && e != EINTR && e != EAGAIN) hk.send_failed(fd, e);
		else if (e == EAGAIN && hk.send_blocked) hk.send_blocked(fd);
	}
	errno = e;
	return r;
}
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) {
	struct iovec io = {(void *)buf, n};
	struct msghdr m = {};
	m.msg_iov = &io;
	m.msg_iovlen = 1;
	return sim_sendmsg(fd, &m, flags);
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
	auto it = fds.find(fd);
	if (it != fds.end() && it->second.kind == F_CLIENT) return sim_send(fd, buf, n, 0);
	if (it == fds.end() && !foreign_ok.count(fd) && fcntl(fd, F_GETFD) == -1)
		violation("fd.bad-use", "write on bad descriptor %d", fd);
	return write(fd, buf, n);
}

int sim_poll(struct pollfd *p, nfds_t n, int timeout) { poll_round++; return hk.poll ? hk.poll(p, n, timeout) : poll(p, n, timeout); }
int sim___poll_chk(struct pollfd *p, nfds_t n, int timeout, size_t) { return sim_poll(p, n, timeout); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) {
	return sim_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}

int sim_pipe2(int p[2], int flags) {
	if (fault("pipe", {EMFILE, ENFILE})) return -1;
	int r = pipe2(p, flags);
	if (r == 0) {
		reg(p[0], F_PIPE);
		reg(p[1], F_PIPE);
	}
	return r;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int sim_socket(int d, int t, int pr) {
	if (fault("socket", {EMFILE, ENFILE, ENOMEM})) return -1;
	return reg(socket(d, t, pr), F_SOCK);
}
int sim_socketpair(int d, int t, int pr, int sv[2]) {
	if (hk.socketpair) return hk.socketpair(sv);
	if (fault("socketpair", {EMFILE, ENFILE, ENOMEM})) return -1;
	int r = socketpair(d, t, pr, sv);
	if (r == 0) {
		reg(sv[0], F_SOCK);
		reg(sv[1], F_SOCK);
	}
	return r;
}
int sim_shutdown(int fd, int how) {
	auto it = fds.find(fd);
	tr("server shutdown(%d, %d)", fd, how);
	if (it != fds.end() && hk.shut) hk.shut(fd, how);
	return shutdown(fd, how);
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l) {
	if (fault("getsockopt", {ENOBUFS, ENOMEM}, fd)) return -1;
	return getsockopt(fd, lvl, opt, v, l);
}

void *sim_malloc(size_t n) {
	mid();
	if (fault("malloc", {ENOMEM})) return injected_alloc++, nullptr;
	void *p = malloc(n);
	allocs[p] = n;
	return p;
}
void *sim_calloc(size_t a, size_t b) {
	mid();
	if (fault("calloc", {ENOMEM})) return injected_alloc++, nullptr;
	void *p = calloc(a, b);
	allocs[p] = a * b;
	return p;
}
void *sim_realloc(void *o, size_t n) {
	mid();
	if (fault("realloc", {ENOMEM})) return injected_alloc++, nullptr;
	if (o) allocs.erase(o);
	void *p = realloc(o, n);
	allocs[p] = n;
	return p;
}
void *sim_reallocarray(void *o, size_t a, size_t b) { return sim_realloc(o, a * b); }
void sim_free(void *p) {
	if (p) allocs.erase(p);
	free(p);
}
char *sim_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = (char *)sim_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}
char *sim_strndup(const char *s, size_t m) {
	size_t n = strnlen(s, m);
	char *p = (char *)sim_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
} // extern "C"
