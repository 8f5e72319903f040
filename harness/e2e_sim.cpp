// Several real processes under one scheduler: libseat applications and the
// real seatd (profile "seatd") or the servers embedded in them (profile
// "builtin").  All processes share a small model kernel (consoles, devices) in
// shared memory; sockets, fork, signals and process death are real.  Only the
// process that was given the turn runs; a seeded scheduler hands it out at the
// system calls, so a run is a deterministic interleaving, "nobody can go on"
// is a logical fact, and no timing is involved.
#include "common.hpp"

#include <dirent.h>
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <poll.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>

#include <algorithm>
#include <unordered_map>

extern "C" {
#include "libseat.h"
#include "protocol.h"
int d_seatd_main(int argc, char *argv[]);
void d_libseat_set_log_handler(libseat_log_func f);
void d_libseat_set_log_level(enum libseat_log_level l);
}
using namespace vh;

static const uint32_t DRM_SET = 0x641e, DRM_DROP = 0x641f;
static const int NP = 16, NA = 4, NO = 400, NVT = 7;

enum PState { P_FREE, P_READY, P_WAIT, P_DEAD };
enum Role { R_DAEMON, R_APP, R_EMBEDDED };
struct Proc {
	sem_t sem;
	int state, role, app; // app: index of the application it is or belongs to
	pid_t pid;
	bool sig;             // a signal interrupted its wait
	bool timed_out;
	double deadline;      // < 0: none
	uint64_t seen;        // generation at which it found nothing to do
	bool exited;          // left through exit()
	int code;
	bool killed;          // by the controller
	bool term;            // got a SIGTERM, which ends it if it has no handler yet
	int yield_pct;
	int fault_at;         // countdown to the injected fault; -1: none
	bool faulted;
	int npoll;
	uint64_t rng;
	int base_fds;         // descriptors at start
	uint64_t sock_ino;    // embedded: its own end; app: see App
	uint64_t calls;
};
enum OfdKind { O_TTY, O_DRM, O_EV };
struct Ofd {
	uint64_t ino;
	int kind, idx; // VT number or device index
	bool alive, revoked, master;
	int opener;    // process slot
	bool flagged;
};
enum AppState { A_NONE, A_OPENING, A_OPEN, A_CLOSED };
enum CallKind { C_NO, C_OPENSEAT, C_DISPATCH, C_OPENDEV, C_CLOSEDEV, C_SWITCH, C_ACK, C_CLOSESEAT };
static const char *callname[] = {"", "libseat_open_seat", "libseat_dispatch", "libseat_open_device", "libseat_close_device",
				 "libseat_switch_session", "libseat_disable_seat", "libseat_close_seat"};
struct Dev { bool used; int id, fd, path; uint64_t ino; int epoch; bool stale; };
struct App {
	int slot, server;    // process slots
	int state, call;
	bool alive, enabled, pending; // pending: told to disable, not acknowledged
	bool lost;           // libseat reported a lost connection
	bool expect_disable, expect_enable, want_disable;
	int session, epoch, policy; // policy: when to acknowledge
	bool withheld;       // keeps its acknowledgement back until told
	bool late;           // acknowledgement due in the main loop
	int cmd, arg;
	bool cmd_done;
	int sw_target;       // application it switched to (-1: none)
	bool sw_clean;
	Dev dev[12];
	uint64_t my_ino, peer_ino; // builtin: both ends of its socket pair
	int opens, seats, blocking;
	int exp_fds;
	bool open_failed;
	int fail_errno;
	uint64_t allocs;
};
enum Cmd { K_NONE, K_OPENDEV, K_CLOSEDEV, K_SWITCH, K_ACK, K_CLOSE, K_EXIT, K_REOPEN, K_BLOCK, K_BADCLOSE, K_NAME };
static const char *cmdname[] = {"", "open device", "close device", "switch", "ack", "close seat", "exit", "open seat", "wait in dispatch", "close unknown device", "seat name"};
struct Vt { int kd, kb, mode, relsig, acqsig, newvt, owner; bool used; };
struct Stat { char name[40]; uint64_t n; };
struct Sh {
	sem_t ctl;
	Proc p[NP];
	int np;
	App a[NA];
	int na;
	bool builtin, vtbound;
	Ofd o[NO];
	int no;
	Vt vt[NVT];
	int fg;
	int holder; // application between its enable callback and its acknowledgement
	int session_cnt;
	bool relaxed; // a fault was injected or the server killed
	bool server_dead;
	bool viol;
	char vtag[64], vmsg[600];
	Stat stats[160];
	int nlog;
	char log[6000][120];
	uint64_t gen;
	uint64_t steps;
	int eintr_pct;
	bool nofork;
};
static Sh *sh;
static int me = -1;          // slot of this process; -1: the controller
static int chan[NP][2];      // read ends of opened devices travel to the controller
static char sockpath[108];
static std::unordered_map<void *, size_t> mine; // allocations of the code under test in this process
static bool counting = false;

static void L(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void L(const char *fmt, ...) {
	if (sh->nlog >= 6000) return;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sh->log[sh->nlog++], sizeof sh->log[0], fmt, ap);
	va_end(ap);
}
static void S(const char *name, uint64_t n = 1) {
	for (auto &s : sh->stats) {
		if (!s.name[0]) strncpy(s.name, name, sizeof s.name - 1);
		if (!strcmp(s.name, name)) { s.n += n; return; }
	}
}
[[noreturn]] static void V(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] static void end_case_violation();
[[noreturn]] static void V(const char *tag, const char *fmt, ...) {
	if (!sh->viol) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(sh->vmsg, sizeof sh->vmsg, fmt, ap);
		va_end(ap);
		snprintf(sh->vtag, sizeof sh->vtag, "%s", tag);
		sh->viol = true;
	}
	if (me < 0) end_case_violation();
	sem_post(&sh->ctl);
	while (true) pause();
}
static uint32_t prnd(Proc &p, uint32_t n) { return n ? (uint32_t)((Rng::mix(p.rng) >> 20) % n) : 0; }

// ---------------- turns ----------------
static void turn(int state) {
	Proc &p = sh->p[me];
	p.state = state;
	sem_post(&sh->ctl);
	while (sem_wait(&p.sem) == -1)
		;
	p.state = P_READY;
}
static void preempt() {
	if (me < 0) return;
	int e = errno;
	sh->gen++;
	Proc &p = sh->p[me];
	if (++p.calls > 60000) V("spin", "process %d makes system calls without end", me);
	if (p.yield_pct && (int)prnd(p, 100) < p.yield_pct) turn(P_READY);
	errno = e;
}
static bool fault(const char *what, int err) {
	Proc &p = sh->p[me];
	if (p.fault_at < 0) return false;
	if (p.fault_at-- > 0) return false;
	p.faulted = true;
	sh->relaxed = true;
	S("faults");
	L("fault: %s of process %d (%s) fails with %s", what, me, p.role == R_APP ? "app" : "server", strerror(err));
	errno = err;
	return true;
}

// ---------------- model kernel ----------------
static Ofd *ofd_of(int fd) {
	struct stat s;
	if (fstat(fd, &s) == -1 || !S_ISFIFO(s.st_mode)) return nullptr;
	for (int i = sh->no - 1; i >= 0; i--)
		if (sh->o[i].ino == s.st_ino && sh->o[i].alive) return &sh->o[i];
	return nullptr;
}
static const char *devpath[] = {"/dev/input/event0", "/dev/input/event1", "/dev/input/event2", "/dev/dri/card0", "/dev/dri/card1"};
static const int NDEV = 5;
static int path_dev(const char *path) {
	std::string p = path;
	for (size_t i; (i = p.find("/./")) != std::string::npos;) p.erase(i, 2);
	for (size_t i; (i = p.find("//")) != std::string::npos;) p.erase(i, 1);
	for (int i = 0; i < NDEV; i++)
		if (p == devpath[i]) return i;
	return -1;
}
static bool send_signal(int slot, int sig) {
	if (slot < 0 || slot >= sh->np) return false;
	Proc &p = sh->p[slot];
	if (p.state == P_DEAD || p.exited || p.killed) return false;
	L("kernel: signal %d to process %d", sig, slot);
	p.sig = true;
	kill(p.pid, sig);
	return true;
}
static void con_complete(int n) {
	L("kernel: console switch %d -> %d", sh->fg, n);
	sh->fg = n;
	S("console-switch");
	Vt &v = sh->vt[n];
	if (v.mode == VT_PROCESS && v.acqsig && !send_signal(v.owner, v.acqsig)) v.mode = VT_AUTO;
}
static int con_set(int n) {
	Vt &v = sh->vt[sh->fg];
	if (v.mode == VT_PROCESS && v.relsig && n != sh->fg) {
		v.newvt = n;
		if (send_signal(v.owner, v.relsig)) return 0;
		v.mode = VT_AUTO; // reset_vc: the controlling process is gone
		v.kd = KD_TEXT;
		v.newvt = -1;
	}
	if (n == sh->fg) return 0;
	if (v.kd == KD_GRAPHICS) return EINVAL;
	con_complete(n);
	return 0;
}
static int do_ioctl(Ofd &o, unsigned long req, long arg) {
	uint32_t r = (uint32_t)req;
	if (o.kind == O_EV) {
		if (r != (uint32_t)EVIOCREVOKE) return ENOTTY;
		if (arg) return EINVAL;
		if (o.revoked) return ENODEV;
		o.revoked = true;
		return 0;
	}
	if (o.kind == O_DRM) {
		if (r == DRM_SET) {
			if (o.master) return 0;
			for (int i = 0; i < sh->no; i++)
				if (&sh->o[i] != &o && sh->o[i].kind == O_DRM && sh->o[i].idx == o.idx && sh->o[i].alive && sh->o[i].master) return EBUSY;
			o.master = true;
			return 0;
		}
		if (r == DRM_DROP) {
			if (!o.master) return EINVAL;
			o.master = false;
			return 0;
		}
		return ENOTTY;
	}
	Vt &v = sh->vt[o.idx ? o.idx : sh->fg];
	int n = o.idx ? o.idx : sh->fg;
	switch (req) {
	case KDSETMODE: v.kd = (int)arg; v.used = true; L("server %d: tty%d KDSETMODE %ld", me, n, arg); return 0;
	case KDSKBMODE: v.kb = (int)arg; v.used = true; return 0;
	case VT_SETMODE: {
		struct vt_mode *m = (struct vt_mode *)arg;
		v.mode = m->mode;
		v.relsig = m->relsig;
		v.acqsig = m->acqsig;
		v.owner = me;
		v.newvt = -1;
		v.used = true;
		return 0;
	}
	case VT_GETSTATE: {
		struct vt_stat *s = (struct vt_stat *)arg;
		s->v_active = (unsigned short)sh->fg;
		s->v_signal = 0;
		s->v_state = 0xff;
		return 0;
	}
	case VT_ACTIVATE:
		if (arg <= 0 || arg >= NVT) return ENXIO;
		L("server %d: VT_ACTIVATE %ld", me, arg);
		return con_set((int)arg);
	case VT_RELDISP:
		if (v.mode != VT_PROCESS) return EINVAL;
		L("server %d: tty%d VT_RELDISP %ld", me, n, arg);
		if (v.newvt < 0) return arg == VT_ACKACQ ? 0 : EINVAL;
		{
			int to = v.newvt;
			v.newvt = -1;
			if (arg == 0) return 0;
			// every device of the session must be unusable by now
			for (int i = 0; i < sh->no; i++) {
				Ofd &d = sh->o[i];
				if (!d.alive || d.kind == O_TTY || sh->relaxed) continue;
				if (sh->builtin && d.opener != me) continue;
				if ((d.kind == O_EV && !d.revoked) || (d.kind == O_DRM && d.master))
					V("e2e.release-early", "VT %d is released while %s is still usable", n, devpath[d.idx]);
			}
			S("check.release");
			con_complete(to);
			return 0;
		}
	}
	return EINVAL;
}

// ---------------- stand-ins ----------------
static void *note(void *p, size_t n) {
	if (p && counting) mine[p] = n;
	return p;
}
static bool alloc_fault() { return me >= 0 && sh->p[me].fault_at >= 0 && fault("an allocation", ENOMEM); }
extern "C" {
void *sim_malloc(size_t n) { return alloc_fault() ? nullptr : note(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { return alloc_fault() ? nullptr : note(calloc(a, b), a * b); }
void *sim_realloc(void *p, size_t n) {
	if (alloc_fault()) return nullptr;
	mine.erase(p);
	return note(realloc(p, n), n);
}
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void sim_free(void *p) { mine.erase(p); free(p); }
char *sim_strdup(const char *s) { return alloc_fault() ? nullptr : (char *)note(strdup(s), strlen(s) + 1); }
char *sim_strndup(const char *s, size_t n) { return alloc_fault() ? nullptr : (char *)note(strndup(s, n), n + 1); }

static int x_open(const char *path) {
	preempt();
	int kind = -1, idx = 0;
	if (!strncmp(path, "/dev/tty", 8) && path[8] >= '0' && path[8] <= '9') {
		kind = O_TTY;
		idx = atoi(path + 8);
		if (idx >= NVT) { errno = ENXIO; return -1; }
		if (!sh->vtbound) V("e2e.tty", "a console is opened on a seat that is not VT-bound");
	} else {
		idx = path_dev(path);
		if (idx >= 0) kind = idx >= 3 ? O_DRM : O_EV;
	}
	if (kind < 0) { errno = ENOENT; return -1; }
	if (fault("open", kind == O_TTY ? EIO : EBUSY)) return -1;
	int fds[2];
	if (pipe2(fds, O_CLOEXEC | O_NONBLOCK) == -1) broken("pipe: %s", strerror(errno));
	struct stat s;
	fstat(fds[1], &s);
	if (sh->no >= NO) broken("too many open files in one case");
	Ofd &o = sh->o[sh->no];
	memset(&o, 0, sizeof o);
	o.ino = s.st_ino;
	o.kind = kind;
	o.idx = idx;
	o.opener = me;
	o.alive = true;
	if (kind == O_DRM) {
		o.master = true;
		for (int i = 0; i < sh->no; i++)
			if (sh->o[i].kind == O_DRM && sh->o[i].idx == idx && sh->o[i].alive && sh->o[i].master) o.master = false;
	}
	// the controller holds the other end and sees when the last copy is closed
	char b[16];
	snprintf(b, sizeof b, "%d", sh->no);
	struct iovec iov = {b, sizeof b};
	char cb[CMSG_SPACE(sizeof(int))];
	memset(cb, 0, sizeof cb);
	struct msghdr m = {};
	m.msg_iov = &iov;
	m.msg_iovlen = 1;
	m.msg_control = cb;
	m.msg_controllen = sizeof cb;
	struct cmsghdr *c = CMSG_FIRSTHDR(&m);
	c->cmsg_level = SOL_SOCKET;
	c->cmsg_type = SCM_RIGHTS;
	c->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(c), &fds[0], sizeof(int));
	if (sendmsg(chan[0][1], &m, MSG_NOSIGNAL) == -1) broken("channel: %s", strerror(errno));
	close(fds[0]);
	sh->no++;
	if (kind != O_TTY) { L("server %d: open %s = #%d", me, path, sh->no - 1); S("device-open"); }
	return fds[1];
}
int sim_open(const char *p, int, ...) { return x_open(p); }
int sim_open64(const char *p, int, ...) { return x_open(p); }
int sim___open_2(const char *p, int) { return x_open(p); }
int sim_openat(int, const char *p, int, ...) { return x_open(p); }
int sim_openat64(int, const char *p, int, ...) { return x_open(p); }
int sim_close(int fd) { if (me >= 0) sh->gen++; return close(fd); }
int sim_dup(int fd) { return dup(fd); }
int sim_dup2(int a, int b) { return dup2(a, b); }
int sim_dup3(int a, int b, int c) { return dup3(a, b, c); }
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	if (fault("fcntl", ENOMEM)) return -1;
	return fcntl(fd, cmd, a);
}
int sim_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl(fd, cmd, a);
}
int sim_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	long arg = va_arg(ap, long);
	va_end(ap);
	preempt();
	Ofd *o = ofd_of(fd);
	if (!o) { errno = ENOTTY; return -1; }
	if (o->kind == O_TTY && fault("tty ioctl", EIO)) return -1;
	int e = do_ioctl(*o, req, arg);
	if (e) { errno = e; return -1; }
	return 0;
}
char *sim_realpath(const char *path, char *out) {
	int idx = path_dev(path);
	if (idx < 0) { errno = ENOENT; return nullptr; }
	if (fault("realpath", ENOMEM)) return nullptr;
	if (!out) out = (char *)note(malloc(4096), 4096);
	strcpy(out, devpath[idx]);
	return out;
}
char *sim___realpath_chk(const char *p, char *o, size_t) { return sim_realpath(p, o); }
char *sim_canonicalize_file_name(const char *p) { return sim_realpath(p, nullptr); }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { preempt(); return accept4(fd, a, l, fl | SOCK_CLOEXEC); }
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return sim_accept4(fd, a, l, 0); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) {
	preempt();
	if (fault("recvmsg", ENOMEM)) return -1;
	ssize_t r = recvmsg(fd, m, fl | MSG_DONTWAIT);
	if (r >= 4 && sh->p[me].role != R_APP) {
		// an application's first message gives it its session number
		uint16_t op;
		memcpy(&op, m->msg_iov[0].iov_base, 2);
		if (op == 1) {
			struct ucred u = {};
			socklen_t ul = sizeof u;
			getsockopt(fd, SOL_SOCKET, SO_PEERCRED, &u, &ul);
			int n_session = sh->vtbound ? sh->fg : sh->builtin ? 0 : sh->session_cnt++;
			for (int i = 0; i < sh->na; i++) {
				App &a = sh->a[i];
				bool is = sh->builtin ? sh->p[me].app == i : (a.alive && sh->p[a.slot].pid == u.pid);
				if (is) a.session = n_session;
			}
		}
	}
	return r;
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { preempt(); return recv(fd, b, n, fl | MSG_DONTWAIT); }
ssize_t sim_read(int fd, void *b, size_t n) { return read(fd, b, n); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) {
	preempt();
	if (fault("sendmsg", ENOMEM)) return -1;
	ssize_t r = sendmsg(fd, m, fl | MSG_DONTWAIT);
	if (r > 0) S("messages");
	int e = errno;
	preempt();
	errno = e;
	return r;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { preempt(); return send(fd, b, n, fl | MSG_DONTWAIT); }
ssize_t sim_write(int fd, const void *b, size_t n) { return write(fd, b, n); }
int sim_poll(struct pollfd *f, nfds_t n, int timeout) {
	Proc &p = sh->p[me];
	preempt();
	p.npoll++;
	if (fault("poll", EINVAL)) return -1;
	p.sig = false; // a signal taken before the call does not interrupt it
	p.timed_out = false;
	if (p.role == R_APP && sh->eintr_pct && (int)prnd(p, 100) < sh->eintr_pct && timeout != 0) { errno = EINTR; S("eintr"); return -1; }
	while (true) {
		int r = poll(f, n, 0);
		if (r != 0 || timeout == 0) {
			p.deadline = -1;
			sh->gen++;
			return r;
		}
		if (p.sig) { p.sig = false; errno = EINTR; return -1; }
		if (p.timed_out) { p.timed_out = false; return 0; }
		p.deadline = timeout < 0 ? -1 : timeout;
		p.seen = sh->gen;
		turn(P_WAIT);
	}
}
int sim___poll_chk(struct pollfd *f, nfds_t n, int t, size_t) { return sim_poll(f, n, t); }
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *) {
	return sim_poll(f, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1);
}
int sim_pipe2(int *f, int fl) { if (fault("pipe", EMFILE)) return -1; return pipe2(f, fl); }
int sim_pipe(int *f) { return sim_pipe2(f, 0); }
int sim_socket(int a, int b, int c) { preempt(); if (fault("socket", EMFILE)) return -1; return socket(a, b, c); }
int sim_socketpair(int a, int b, int c, int *f) {
	preempt();
	if (fault("socketpair", EMFILE)) return -1;
	int r = socketpair(a, b, c, f);
	if (r == 0 && sh->p[me].role == R_APP) {
		struct stat s;
		App &ap = sh->a[sh->p[me].app];
		fstat(f[1], &s);
		ap.my_ino = s.st_ino;
		fstat(f[0], &s);
		ap.peer_ino = s.st_ino;
	}
	return r;
}
int sim_shutdown(int fd, int how) { return shutdown(fd, how); }
int sim_getsockopt(int fd, int a, int b, void *v, socklen_t *l) { return getsockopt(fd, a, b, v, l); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t l) { preempt(); if (fault("connect", ECONNREFUSED)) return -1; return connect(fd, a, l); }

static void leave(int code) {
	Proc &p = sh->p[me];
	p.exited = true;
	p.code = code;
	L("process %d (%s) exits with %d", me, p.role == R_APP ? "app" : "server", code);
	p.state = P_DEAD;
	// the turn goes back when the process is gone
	_exit(0);
}
void sim_exit(int code) { leave(code); }
void sim__exit(int code) { leave(code); }
pid_t sim_fork(void) {
	preempt();
	if (fault("fork", EAGAIN)) return -1;
	App &a = sh->a[sh->p[me].app];
	if (sh->p[me].role != R_APP) V("builtin.forks", "the embedded server forks");
	if (a.server >= 0 && sh->p[a.server].state != P_DEAD && a.state == A_OPENING && a.seats == sh->p[a.server].npoll + 1000000)
		V("builtin.forks", "two servers are started for one seat");
	int parent = me;
	if (sh->np >= NP) broken("too many processes");
	int slot = sh->np++;
	Proc &p = sh->p[slot];
	p.role = R_EMBEDDED;
	p.app = sh->p[me].app;
	p.state = P_READY;
	p.deadline = -1;
	p.yield_pct = sh->p[parent].yield_pct;
	p.rng = Rng::mix(sh->p[parent].rng);
	if (!p.faulted && p.fault_at == -2) p.fault_at = -1;
	pid_t pid = fork();
	if (pid == -1) broken("fork: %s", strerror(errno));
	if (pid == 0) {
		me = slot;
		counting = false;
		while (sem_wait(&sh->p[me].sem) == -1)
			;
		p.state = P_READY;
		return 0;
	}
	p.pid = pid;
	a.server = slot;
	a.opens++;
	L("app %d forks server %d", p.app, slot);
	return pid;
}
const char *sim_sockpath_get(void) { return sockpath; }
}

static int count_fds(pid_t pid, uint64_t want_sock = 0, bool *has = nullptr) {
	char b[64];
	snprintf(b, sizeof b, "/proc/%d/fd", pid);
	DIR *d = opendir(b);
	if (!d) return -1;
	int n = 0, self = dirfd(d);
	struct dirent *e;
	if (has) *has = false;
	while ((e = readdir(d))) {
		if (e->d_name[0] == '.') continue;
		if (pid == getpid() && atoi(e->d_name) == self) continue;
		n++;
		if (has) {
			char p[400], l[100];
			snprintf(p, sizeof p, "%s/%s", b, e->d_name);
			ssize_t k = readlink(p, l, sizeof l - 1);
			if (k > 0) {
				l[k] = 0;
				char w[60];
				snprintf(w, sizeof w, "socket:[%llu]", (unsigned long long)want_sock);
				if (!strcmp(l, w)) *has = true;
			}
		}
	}
	closedir(d);
	return n;
}

// ---------------- the application ----------------
static struct libseat *seat;
static App *A;
static int AI;
static int nlogs;

static bool conn_errno(int e) {
	if (e == EIO) return libseat_get_fd(seat) == -1; // also an answer of the server
	return e == EPIPE || e == ENOTCONN || e == ECONNRESET || e == EBADMSG;
}
static void note_lost(const char *what, int e) {
	if (!A->lost) L("app %d: connection lost in %s: %s", AI, what, strerror(e));
	A->lost = true;
	if (!sh->relaxed) V("e2e.conn-lost", "application %d lost its connection in %s (%s) although nothing went wrong", AI, what, strerror(e));
}
static void begin(int kind) {
	if (A->call != C_NO && A->call != C_DISPATCH && A->call != C_OPENSEAT) broken("nested call %d in %d", kind, A->call);
	A->call = kind;
	errno = 0;
}
static Dev *dev_slot() {
	for (auto &d : A->dev)
		if (!d.used) return &d;
	return nullptr;
}
static bool closing; // events that had arrived are still delivered while the seat is closed
struct InCall {
	int prev;
	explicit InCall(int k) : prev(A->call) { A->call = k; errno = 0; }
	~InCall() { A->call = prev; }
};
static void do_ack() {
	A->withheld = A->late = false;
	if (!A->pending) return;
	if (sh->holder == AI) sh->holder = -1;
	A->pending = false;
	A->enabled = false;
	L("app %d: disable_seat", AI);
	int r, e;
	{
		InCall c(C_ACK);
		r = libseat_disable_seat(seat);
		e = errno;
	}
	S("ack");
	if (r == 0 && A->lost && !closing) V("e2e.dead-call", "libseat_disable_seat succeeds after the connection was lost");
	if (r == -1 && e == 0) V("e2e.errno", "libseat_disable_seat fails without errno");
	if (r == -1) {
		if (closing) return; // the server no longer knows the session
		if (conn_errno(e) || A->lost) note_lost("libseat_disable_seat", e);
		else if (!sh->relaxed) V("e2e.ack-failed", "application %d: the acknowledgement fails: %s", AI, strerror(e));
	}
}
static void do_close_dev(Dev &d) {
	L("app %d: close_device %d (%s)", AI, d.id, devpath[d.path]);
	int r, e;
	{
		InCall c(C_CLOSEDEV);
		r = libseat_close_device(seat, d.id);
		e = errno;
	}
	S("close-device");
	if (r == 0 && A->lost) V("e2e.dead-call", "libseat_close_device succeeds after the connection was lost");
	if (r == -1) {
		if (e == 0) V("e2e.errno", "libseat_close_device fails without errno");
		if (conn_errno(e) || A->lost) note_lost("libseat_close_device", e);
		else if (!sh->relaxed) V("e2e.close-failed", "application %d cannot close its device %d: %s", AI, d.id, strerror(e));
	}
	close(d.fd);
	d.used = false;
}
static void do_open_dev(int arg) {
	int path = arg % 100, namelen = arg / 100;
	Dev *d = dev_slot();
	if (!d) return;
	bool held_stale = false;
	for (auto &x : A->dev)
		if (x.used && x.path == path && path < 3) { // kept open over a disable: seatd hands out the same dead entry
			Ofd *o = ofd_of(x.fd);
			if (!o || o->revoked) held_stale = true;
		}
	bool en = A->enabled && !A->pending;
	// sometimes by a long name of it, as long as the library lets through
	std::string name = devpath[path];
	if (namelen)
		while ((int)name.size() < namelen) name.insert(4, (int)name.size() + 2 > namelen ? "/" : "/.");
	bool too_long = name.size() + 1 > MAX_PATH_LEN;
	L("app %d: open_device %s (%zu characters)", AI, devpath[path], name.size());
	int fd = -7, r, e;
	{
		InCall c(C_OPENDEV);
		r = libseat_open_device(seat, name.c_str(), &fd);
		e = errno;
	}
	S("open-device");
	if (namelen > 200) S("check.long-path");
	if (r == -1) {
		L("app %d: open_device fails: %s", AI, strerror(e));
		if (e == 0) V("e2e.errno", "libseat_open_device fails without errno");
		if (conn_errno(e) || A->lost) note_lost("libseat_open_device", e);
		else if (!sh->relaxed) {
			if (too_long && e == EINVAL) {
				S("check.path-too-long");
				return;
			}
			if (e != EPERM) V("e2e.open-failed", "application %d: opening %s fails: %s", AI, devpath[path], strerror(e));
			if (en) A->expect_disable = true; // only if the seat is being taken away
		}
		return;
	}
	if (A->lost) V("e2e.dead-call", "libseat_open_device succeeds after the connection was lost");
	Ofd *o = ofd_of(fd);
	if (!o) V("e2e.wrong-fd", "opening %s gives descriptor %d, which is not a device", devpath[path], fd);
	if (o->kind == O_TTY || o->idx != path) V("e2e.wrong-fd", "opening %s gives a descriptor of another device", devpath[path]);
	for (auto &x : A->dev)
		if (x.used && x.id == r && x.path != path) V("e2e.wrong-id", "device id %d is given out twice", r);
	if (!(fcntl(fd, F_GETFD) & FD_CLOEXEC)) V("e2e.cloexec", "the received descriptor is not close-on-exec");
	if (!en && !A->pending) A->expect_enable = true;
	if (A->pending && !sh->relaxed) V("e2e.open-disabled", "application %d opens a device after it was told to disable", AI);
	d->used = true;
	d->id = r;
	d->fd = fd;
	d->path = path;
	d->ino = o->ino;
	d->epoch = A->epoch + (en ? 0 : 1);
	d->stale = held_stale;
	bool works = o->kind == O_EV ? !o->revoked : true;
	S("check.device");
	if (!works && !held_stale && en) A->expect_disable = true;
}
static void on_enable(struct libseat *, void *data) {
	if (data != A) V("e2e.userdata", "wrong user data");
	L("app %d: enable", AI);
	S("enabled");
	if (A->pending) V("e2e.alternate", "application %d is enabled before its acknowledgement", AI);
	if (A->enabled) V("e2e.alternate", "application %d is enabled twice", AI);
	if (!sh->builtin && !sh->relaxed && !closing && sh->holder >= 0 && sh->holder != AI)
		V("e2e.exclusive", "application %d is enabled while application %d holds the seat", AI, sh->holder);
	A->enabled = true;
	A->expect_enable = false;
	A->expect_disable = A->want_disable = false;
	A->epoch++;
	if (closing) { S("event-in-close"); return; }
	sh->holder = AI;
	S("check.exclusive");
}
static void on_disable(struct libseat *s, void *data) {
	if (data != A) V("e2e.userdata", "wrong user data");
	if (seat && s != seat) V("e2e.userdata", "wrong seat");
	L("app %d: disable", AI);
	S("disabled");
	if (!A->enabled || A->pending) V("e2e.alternate", "application %d is disabled although it is not enabled", AI);
	A->pending = true;
	A->expect_disable = A->want_disable = false;
	// what it held is unusable from now on
	for (auto &d : A->dev)
		if (d.used) {
			Ofd *o = ofd_of(d.fd);
			if (!o) continue;
			if (!sh->relaxed && ((o->kind == O_EV && !o->revoked) || (o->kind == O_DRM && o->master)))
				V("e2e.not-revoked", "application %d is told to disable while %s is still usable", AI, devpath[d.path]);
			S("check.revoked");
		}
	if (closing) {
		S("event-in-close");
		if (A->policy == 0) do_ack();
		return;
	}
	if (!seat) { A->late = true; return; } // within libseat_open_seat
	switch (A->policy) {
	case 0: do_ack(); break;
	case 1: A->late = true; break;
	case 2: A->withheld = true; break;
	case 3:
		for (auto &d : A->dev)
			if (d.used && d.path < 3) do_close_dev(d);
		do_ack();
		break;
	}
}
static struct libseat_seat_listener listener = {on_enable, on_disable};
static int dev_fds() {
	int n = 0;
	for (auto &d : A->dev) n += d.used;
	return n;
}
static void app_fds(const char *when) {
	int n = count_fds(getpid());
	int want = A->exp_fds + dev_fds() + (seat && libseat_get_fd(seat) != -1 ? 1 : 0);
	if (n != want) V("e2e.app-fds", "application %d has %d descriptors %s, expected %d", AI, n, when, want);
	S("check.app-fds");
}
static void do_open_seat() {
	if (seat) return;
	A->state = A_OPENING;
	A->enabled = A->pending = A->lost = A->late = A->withheld = false;
	A->expect_disable = A->expect_enable = A->want_disable = false;
	A->session = -1;
	A->seats++;
	int before = A->opens;
	mine.clear();
	counting = true;
	L("app %d: open_seat", AI);
	int e;
	struct libseat *s;
	{
		InCall c(C_OPENSEAT);
		s = libseat_open_seat(&listener, A);
		e = errno;
	}
	counting = true;
	A->open_failed = s == nullptr;
	A->fail_errno = e;
	if (sh->builtin && A->opens - before > 1) V("builtin.forks", "%d servers are started for one seat", A->opens - before);
	if (!s) {
		L("app %d: open_seat fails: %s", AI, strerror(e));
		S("open-seat-failed");
		A->state = A_CLOSED;
		A->lost = false;
		if (sh->holder == AI) sh->holder = -1;
		A->enabled = A->pending = false;
		if (sh->builtin && !sh->relaxed) V("builtin.open-failed", "application %d cannot open its seat although nothing went wrong: %s", AI, strerror(e));
		if (e == 0) V("e2e.errno", "libseat_open_seat fails without errno");
		if (!mine.empty()) V("e2e.app-leak", "libseat_open_seat fails and leaves %zu allocations", mine.size());
		app_fds("after opening failed");
		return;
	}
	seat = s;
	A->state = A_OPEN;
	S("open-seat");
	if (A->lost && !sh->relaxed) broken("lost while opening");
	app_fds("after opening the seat");
	if (int f = libseat_get_fd(seat); f >= 0 && !(fcntl(f, F_GETFD) & FD_CLOEXEC))
		V("e2e.cloexec", "programs application %d executes inherit the seat's connection", AI);
	const char *n = libseat_seat_name(seat);
	if (!n || strcmp(n, "seat0")) V("e2e.name", "the seat's name is %s", n ? n : "NULL");
}
static void do_close_seat() {
	L("app %d: close_seat", AI);
	if (sh->holder == AI) sh->holder = -1;
	closing = true;
	bool lost = A->lost;
	int r, e;
	A->state = A_CLOSED;
	struct libseat *s = seat;
	{
		InCall c(C_CLOSESEAT);
		r = libseat_close_seat(s);
		e = errno;
	}
	seat = nullptr;
	closing = false;
	S("close-seat");
	if (r == -1 && !lost && !sh->relaxed) V("e2e.close-seat", "libseat_close_seat fails: %s", strerror(e));
	if (r == 0 && lost) V("e2e.dead-call", "libseat_close_seat succeeds after the connection was lost");
	A->enabled = A->pending = A->late = A->withheld = A->lost = false;
	A->expect_disable = A->expect_enable = A->want_disable = false;
	if (!mine.empty()) V("e2e.app-leak", "libseat_close_seat leaves %zu allocations", mine.size());
	app_fds("after closing the seat");
	for (auto &d : A->dev)
		if (d.used) {
			Ofd *o = ofd_of(d.fd);
			if (!o) continue;
			if (r == 0 && ((o->kind == O_EV && !o->revoked) || (o->kind == O_DRM && o->master)) && !sh->relaxed)
				V("e2e.not-revoked", "the seat was closed while %s is still usable", devpath[d.path]);
			close(d.fd);
			d.used = false;
		}
}
static void do_switch(int n) {
	bool en = A->enabled && !A->pending;
	L("app %d: switch_session %d", AI, n);
	int r, e;
	{
		InCall c(C_SWITCH);
		r = libseat_switch_session(seat, n);
		e = errno;
	}
	S("switch");
	if (r == 0 && A->lost) V("e2e.dead-call", "libseat_switch_session succeeds after the connection was lost");
	if (r == -1 && e == 0) V("e2e.errno", "libseat_switch_session fails without errno");
	if (r == -1 && (conn_errno(e) || A->lost)) { note_lost("libseat_switch_session", e); return; }
	if (sh->relaxed) return;
	// the event may have overtaken the answer
	if (r == 0) {
		if (n <= 0) V("e2e.switch-bad", "a switch to session %d is accepted", n);
		if (n == A->session) return;
		if (!sh->vtbound) {
			bool live = false;
			for (int i = 0; i < sh->na; i++)
				if (sh->a[i].session == n) live = true; // members that left are looked at by the controller
			if (!live) V("e2e.switch-bad", "a switch to session %d, which never existed, is accepted", n);
		}
		if (A->enabled && !A->pending) A->want_disable = true;
		S("switch-accepted");
	} else {
		L("app %d: switch fails: %s", AI, strerror(e));
		if (e == EPERM) { if (en && A->enabled && !A->pending) A->expect_disable = true; }
		else if (e != EINVAL && e != ENXIO) V("e2e.switch-failed", "switching to session %d fails: %s", n, strerror(e));
	}
}
static void do_dispatch(int timeout) {
	bool lost = A->lost;
	int r, e;
	{
		InCall c(C_DISPATCH);
		r = libseat_dispatch(seat, timeout);
		e = errno;
	}
	S("dispatch");
	if (r == -1) {
		if (e == 0) V("e2e.errno", "libseat_dispatch fails without errno");
		if (conn_errno(e) || A->lost) note_lost("libseat_dispatch", e);
		else if (!sh->relaxed) V("e2e.dispatch", "libseat_dispatch fails: %s", strerror(e));
	} else if (lost) V("e2e.dead-call", "libseat_dispatch succeeds after the connection was lost");
}
static void app_cmd(int cmd, int arg) {
	switch (cmd) {
	case K_OPENDEV: if (seat) do_open_dev(arg); break;
	case K_CLOSEDEV:
		if (!seat) break;
		for (int k = 0; k < 12; k++)
			if (A->dev[(arg + k) % 12].used) { do_close_dev(A->dev[(arg + k) % 12]); break; }
		break;
	case K_BADCLOSE: {
		if (!seat) break;
		int id = 900 + arg, r, e;
		{ InCall c(C_CLOSEDEV); r = libseat_close_device(seat, id); e = errno; }
		if (r == 0) V("e2e.bad-close", "closing device %d, which was never opened, succeeds", id);
		if (e == 0) V("e2e.errno", "libseat_close_device fails without errno");
		if (conn_errno(e) || A->lost) note_lost("libseat_close_device", e);
		break;
	}
	case K_SWITCH: if (seat) do_switch(arg); break;
	case K_ACK: if (seat && A->pending) do_ack(); break;
	case K_CLOSE: if (seat) do_close_seat(); break;
	case K_EXIT: L("app %d: exit", AI); if (sh->holder == AI) sh->holder = -1; A->enabled = A->pending = false; leave(0); break;
	case K_REOPEN: if (!seat) do_open_seat(); break;
	case K_BLOCK: if (seat && !A->lost) { A->blocking++; do_dispatch(arg); } break;
	case K_NAME:
		if (seat && strcmp(libseat_seat_name(seat), "seat0")) V("e2e.name", "the seat's name changed");
		break;
	}
}
[[noreturn]] static void app_main() {
	A->exp_fds = count_fds(getpid());
	do_open_seat();
	while (true) {
		// after an injected failure the connection may be given up under another errno
		if (sh->relaxed && seat && !A->lost && libseat_get_fd(seat) == -1) note_lost("a failed call", 0);
		if (seat && A->late) { do_ack(); }
		if (A->cmd) {
			int c = A->cmd, g = A->arg;
			A->cmd = K_NONE;
			app_cmd(c, g);
			continue;
		}
		if (seat && !A->lost) {
			int fd = libseat_get_fd(seat);
			struct pollfd f = {fd, POLLIN, 0};
			if (poll(&f, 1, 0) > 0) { do_dispatch(0); preempt(); continue; }
		}
		Proc &p = sh->p[me];
		p.deadline = -1;
		p.seen = sh->gen;
		turn(P_WAIT);
	}
}

// ---------------- the controller ----------------
static std::map<int, int> ofd_rd; // index -> read end
static bool daemon_running;
static int DAEMON = -1, daemon_fds;

static std::string proc_state(pid_t pid) {
	char b[64], t[512];
	snprintf(b, sizeof b, "/proc/%d/stat", pid);
	int fd = open(b, O_RDONLY);
	if (fd < 0) return "";
	ssize_t n = read(fd, t, sizeof t - 1);
	close(fd);
	if (n <= 0) return "";
	t[n] = 0;
	char *q = strrchr(t, ')');
	return q && q[1] ? std::string(1, q[2]) : "";
}
static bool gone(pid_t pid) {
	std::string s = proc_state(pid);
	return s.empty() || s == "Z" || s == "X";
}
static void reap(int slot) {
	Proc &p = sh->p[slot];
	double t0 = now_s();
	while (true) {
		int w;
		if (waitpid(p.pid, &w, WNOHANG) == p.pid) break;
		if (gone(p.pid)) break;
		if (now_s() - t0 > 60) broken("process %d does not end", slot);
		usleep(100);
	}
	waitpid(p.pid, nullptr, WNOHANG);
	p.state = P_DEAD;
}
static void collect() {
	// read ends of newly opened files
	while (true) {
		char b[16] = {};
		struct iovec iov = {b, sizeof b};
		char cb[CMSG_SPACE(sizeof(int))];
		struct msghdr m = {};
		m.msg_iov = &iov;
		m.msg_iovlen = 1;
		m.msg_control = cb;
		m.msg_controllen = sizeof cb;
		ssize_t n = recvmsg(chan[0][0], &m, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);
		if (n <= 0) break;
		struct cmsghdr *c = CMSG_FIRSTHDR(&m);
		if (!c) broken("no descriptor in the channel");
		int fd;
		memcpy(&fd, CMSG_DATA(c), sizeof fd);
		ofd_rd[atoi(b)] = fd;
	}
	if (ofd_rd.empty()) return;
	std::vector<struct pollfd> f;
	std::vector<int> idx;
	for (auto &x : ofd_rd) { f.push_back({x.second, 0, 0}); idx.push_back(x.first); }
	if (poll(f.data(), f.size(), 0) > 0)
		for (size_t i = 0; i < f.size(); i++)
			if (f[i].revents & POLLHUP) {
				Ofd &o = sh->o[idx[i]];
				o.alive = false;
				o.master = false;
				close(f[i].fd);
				ofd_rd.erase(idx[i]);
			}
}
static void kill_all() {
	for (int i = 0; i < sh->np; i++)
		if (sh->p[i].pid > 0 && sh->p[i].state != P_DEAD) { sh->p[i].killed = true; kill(sh->p[i].pid, SIGKILL); }
	for (int i = 0; i < sh->np; i++)
		if (sh->p[i].pid > 0) {
			double t0 = now_s();
			while (waitpid(sh->p[i].pid, nullptr, WNOHANG) == 0 && now_s() - t0 < 20) usleep(50);
		}
	while (waitpid(-1, nullptr, WNOHANG) > 0)
		;
	for (auto &x : ofd_rd) close(x.second);
	ofd_rd.clear();
	char b[64];
	while (recv(chan[0][0], b, sizeof b, MSG_DONTWAIT) > 0)
		;
}
static void flush_log() {
	for (int i = 0; i < sh->nlog; i++) tr("%s", sh->log[i]);
	sh->nlog = 0;
	for (auto &s : sh->stats)
		if (s.name[0]) { st(s.name, s.n); s.n = 0; s.name[0] = 0; }
}
[[noreturn]] static void end_case_violation() {
	static bool once = false;
	if (once) _exit(10);
	once = true;
	std::string tag = sh->vtag, msg = sh->vmsg;
	flush_log();
	kill_all();
	violation(tag.c_str(), "%s", msg.c_str());
}
static uint64_t absstate() {
	uint64_t h = 0xcbf29ce484222325ull;
	auto add = [&](int x) { hash_add(h, &x, sizeof x); };
	add(sh->builtin);
	add(sh->vtbound);
	add(sh->vtbound ? sh->fg : 0);
	add(sh->holder);
	for (int i = 0; i < sh->na; i++) {
		App &a = sh->a[i];
		add(a.alive * 64 + a.state * 16 + a.enabled * 8 + a.pending * 4 + a.lost * 2 + a.withheld);
		add(a.call);
		int ev = 0, dr = 0;
		for (auto &d : a.dev)
			if (d.used) (d.path < 3 ? ev : dr)++;
		add(std::min(ev, 2) * 4 + std::min(dr, 2));
		add(a.server >= 0 ? sh->p[a.server].state == P_DEAD : 2);
		add(sh->p[a.slot].state);
	}
	for (int v = 1; v < 4; v++) add(sh->vt[v].newvt);
	return h;
}
static uint64_t last_state;
static void note_state() {
	uint64_t h = absstate();
	states.insert(h);
	uint64_t t = last_state * 31 + h;
	if (h != last_state) transitions.insert(t);
	last_state = h;
}
static volatile sig_atomic_t chld = 0;
static void on_chld(int) {
	chld = 1;
	if (sh) sem_post(&sh->ctl);
}
static int last_slot = -1;
// give the turn to a process and wait until it comes back or the process ends
static void give(int slot) {
	Proc &p = sh->p[slot];
	sh->steps++;
	if (sh->steps > 60000) V("spin", "the processes go on without end");
	while (sem_trywait(&sh->ctl) == 0)
		;
	int was = p.state;
	p.state = -1; // running
	sem_post(&p.sem);
	double t0 = now_s();
	while (true) {
		struct timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		ts.tv_nsec += 200000000;
		if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
		int r = sem_timedwait(&sh->ctl, &ts);
		if (sh->viol) end_case_violation();
		if (p.state == P_READY || p.state == P_WAIT) break;
		if (p.exited) { reap(slot); break; }
		if (gone(p.pid) && p.term) { reap(slot); break; }
		if (gone(p.pid)) {
			usleep(1000);
			V("crash", "process %d (%s) ended unexpectedly%s", slot, p.role == R_APP ? "application" : "server",
			  p.role == R_APP && sh->a[p.app].call ? callname[sh->a[p.app].call] : "");
		}
		if (r == -1 && now_s() - t0 > 120) V("hang", "process %d (%s) does not come back from a system call or a loop", slot, p.role == R_APP ? "application" : "server");
	}
	collect();
	if (was != P_WAIT || p.state != P_WAIT) sh->gen++;
	last_slot = slot;
	note_state();
}
static bool candidate(int i) {
	Proc &p = sh->p[i];
	if (p.state == P_DEAD || p.state == P_FREE) return false;
	if (p.state == P_READY) return true;
	if (p.sig || p.timed_out) return true;
	return p.seen != sh->gen;
}
static int keep_pct;
static bool advance_time = true;
static bool step() {
	int c[NP], n = 0;
	for (int i = 0; i < sh->np; i++)
		if (candidate(i)) c[n++] = i;
	if (!n) {
		if (!advance_time) return false;
		int best = -1;
		for (int i = 0; i < sh->np; i++) {
			Proc &p = sh->p[i];
			if (p.state == P_WAIT && p.deadline >= 0 && (best < 0 || p.deadline < sh->p[best].deadline)) best = i;
		}
		if (best < 0) return false;
		sh->p[best].timed_out = true;
		give(best);
		return true;
	}
	int pick = c[rng.below((uint32_t)n)];
	if (last_slot >= 0 && rng.pct(keep_pct))
		for (int i = 0; i < n; i++)
			if (c[i] == last_slot && sh->p[last_slot].state == P_READY) pick = last_slot;
	give(pick);
	return true;
}
// A switch between a server's look at the console and its VT_SETMODE cannot be
// noticed by anyone; those few instructions are left out.
static bool servers_idle() {
	for (int i = 0; i < sh->np; i++)
		if (sh->p[i].role != R_APP && sh->p[i].state != P_DEAD && sh->p[i].state != P_WAIT) return false;
	return true;
}
// Two embedded servers on one console are no supported set-up: nobody switches
// while a second application is about to choose its console.
static bool choosing_vt() {
	if (!sh->builtin || sh->na < 2) return false;
	for (int i = 0; i < sh->na; i++) {
		App &a = sh->a[i];
		if (a.alive && (a.state == A_NONE || a.state == A_OPENING || (a.state == A_CLOSED && a.cmd))) return true;
	}
	return false;
}
static void chvt(int n) {
	L("user: switch to VT %d (from %d)", n, sh->fg);
	S("user-switch");
	for (int i = 0; i < sh->na; i++) sh->a[i].sw_clean = false;
	con_set(n);
	sh->gen++;
}
static void spawn_app(int i, int policy) {
	App &a = sh->a[i];
	int slot = sh->np++;
	Proc &p = sh->p[slot];
	p.role = R_APP;
	p.app = i;
	p.state = P_READY;
	p.deadline = -1;
	p.rng = rng.next();
	p.yield_pct = rng.pct(20) ? 0 : rng.range(5, 70);
	a.slot = slot;
	a.server = -1;
	a.alive = true;
	a.policy = policy;
	a.session = -1;
	a.sw_target = -1;
	L("app %d starts (process %d, policy %d)", i, slot, policy);
	S("apps");
	pid_t pid = fork();
	if (pid == -1) broken("fork: %s", strerror(errno));
	if (pid == 0) {
		me = slot;
		A = &a;
		AI = i;
		signal(SIGCHLD, SIG_DFL);
		for (auto &x : ofd_rd) close(x.second);
		cpu_limit(30);
		while (sem_wait(&sh->p[me].sem) == -1)
			;
		p.state = P_READY;
		p.pid = getpid();
		app_main();
	}
	p.pid = pid;
	sh->gen++;
}
static void quiet_log(enum libseat_log_level, const char *f, va_list ap) {
	// evaluate the arguments as the default handler would
	char b[400];
	vsnprintf(b, sizeof b, f, ap);
	nlogs++;
}
static void spawn_daemon() {
	int slot = sh->np++;
	DAEMON = slot;
	Proc &p = sh->p[slot];
	p.role = R_DAEMON;
	p.app = -1;
	p.state = P_READY;
	p.deadline = -1;
	p.rng = rng.next();
	p.yield_pct = rng.pct(20) ? 0 : rng.range(5, 70);
	pid_t pid = fork();
	if (pid == -1) broken("fork: %s", strerror(errno));
	if (pid == 0) {
		me = slot;
		signal(SIGCHLD, SIG_DFL);
		cpu_limit(30);
		while (sem_wait(&sh->p[me].sem) == -1)
			;
		p.state = P_READY;
		p.pid = getpid();
		d_libseat_set_log_handler(quiet_log);
		char a0[] = "seatd", *argv[] = {a0, nullptr};
		optind = 1;
		int r = d_seatd_main(1, argv);
		leave(r);
	}
	p.pid = pid;
	sh->gen++;
}
static void kill_proc(int slot) {
	Proc &p = sh->p[slot];
	L("kill process %d (%s)", slot, p.role == R_APP ? "app" : "server");
	p.killed = true;
	kill(p.pid, SIGKILL);
	reap(slot);
	collect();
	sh->gen++;
}
static void app_gone(int i) {
	App &a = sh->a[i];
	a.alive = false;
	if (sh->holder == i) sh->holder = -1;
	a.enabled = a.pending = a.withheld = a.late = false;
	a.state = A_CLOSED;
	a.expect_disable = a.expect_enable = a.want_disable = false;
	for (auto &d : a.dev) d.used = false;
	for (int k = 0; k < sh->na; k++)
		if (sh->a[k].sw_target == i) sh->a[k].sw_clean = false;
}
static bool vtop_pending() {
	for (int v = 1; v < NVT; v++)
		if (sh->vt[v].newvt >= 0) return true;
	return false;
}
// nothing can happen any more without a new input: judge the situation
static void quiescent(const char *when) {
	S("check.quiescent");
	collect();
	int n_open = 0, n_held = 0, n_en = 0;
	bool lost_any = false;
	for (int i = 0; i < sh->na; i++) {
		App &a = sh->a[i];
		if (!a.alive) continue;
		if (sh->p[a.slot].exited) { app_gone(i); continue; }
		if (a.call && a.call != C_DISPATCH)
			V("e2e.deadlock", "application %d waits in %s for ever (%s)", i, callname[a.call], when);
		if (a.state == A_OPEN) n_open++;
		if (a.lost) lost_any = true;
		if (a.enabled) n_en++;
		if (a.pending) n_held++;
		if (a.pending && !a.withheld && !a.lost && a.call != C_DISPATCH) broken("application %d forgot its acknowledgement", i);
		if (sh->relaxed) continue;
		if (a.state != A_OPEN) continue;
		if (a.expect_disable) V("e2e.early-refusal", "application %d was refused as not active although it is enabled", i);
		if (a.expect_enable) V("e2e.open-disabled", "application %d could use the seat while disabled", i);
		if (a.want_disable) V("e2e.switch-lost", "application %d's accepted switch has no effect", i);
		// devices
		for (auto &d : a.dev) {
			if (!d.used) continue;
			Ofd *o = nullptr;
			for (int k = 0; k < sh->no; k++)
				if (sh->o[k].ino == d.ino && sh->o[k].alive) o = &sh->o[k];
			if (!o) V("e2e.device-gone", "an open device of application %d no longer exists", i);
			bool on = a.enabled && !a.pending;
			if (on && o->kind == O_EV && d.epoch == a.epoch && !d.stale && o->revoked)
				V("e2e.device-dead", "%s of the enabled application %d is revoked", devpath[d.path], i);
			if (on && o->kind == O_DRM && !o->master)
				V("e2e.device-dead", "%s of the enabled application %d is not master", devpath[d.path], i);
			if (!on && ((o->kind == O_EV && !o->revoked) || (o->kind == O_DRM && o->master)))
				V("e2e.not-revoked", "%s of application %d, which is not enabled, is usable", devpath[d.path], i);
			S("check.device-state");
		}
	}
	if (sh->server_dead && !sh->builtin) {
		for (int i = 0; i < sh->na; i++) {
			App &a = sh->a[i];
			if (a.alive && a.state == A_OPEN && !a.lost) V("e2e.death-unseen", "application %d does not see that the server died", i);
		}
		return;
	}
	// embedded servers
	if (sh->builtin)
		for (int s = 0; s < sh->np; s++) {
			Proc &p = sh->p[s];
			if (p.role != R_EMBEDDED) continue;
			App &a = sh->a[p.app];
			bool serving = a.alive && a.state == A_OPEN && a.server == s;
			if (p.state == P_DEAD) {
				if (serving && !a.lost && a.call != C_DISPATCH) V("builtin.death-unseen", "application %d does not see that its server ended", p.app);
				if (p.exited && !p.killed && p.code != 0 && !sh->relaxed) V("builtin.status", "the embedded server ends with status %d", p.code);
				continue;
			}
			if (!serving) V("builtin.not-ended", "the embedded server of application %d outlives its seat", p.app);
			if (a.lost && !sh->relaxed) V("e2e.conn-lost", "connection lost although the server lives");
			bool has = false;
			count_fds(p.pid, a.my_ino, &has);
			if (has) V("builtin.other-end", "the embedded server holds the application's end of the connection");
			count_fds(sh->p[a.slot].pid, a.peer_ino, &has);
			if (has) V("builtin.other-end", "the application holds the server's end of the connection");
			S("check.ends");
		}
	if (sh->relaxed) return;
	if (lost_any) V("e2e.conn-lost", "an application lost its connection");
	if (sh->vtbound) {
		if (vtop_pending()) V("e2e.vt-stuck", "a VT switch is never answered");
		Vt &f = sh->vt[sh->fg];
		int on = -1, member = -1;
		for (int i = 0; i < sh->na; i++) {
			App &a = sh->a[i];
			if (!a.alive || a.state != A_OPEN) continue;
			if (a.session == sh->fg) member = i;
			if (a.enabled && !a.pending) {
				on = i;
				if (a.session != sh->fg) V("e2e.vt-wrong", "application %d of VT %d is enabled while VT %d is shown", i, a.session, sh->fg);
			}
		}
		bool held = sh->builtin ? (member >= 0 && sh->a[member].pending) : n_held > 0;
		if (on < 0 && member >= 0 && !held) V("e2e.idle-seat", "application %d of the shown VT %d is not enabled although nobody holds the seat (%s)", member, sh->fg, when);
		if (on >= 0 && (f.kd != KD_GRAPHICS || f.kb == K_UNICODE || f.kb == K_XLATE || f.mode != VT_PROCESS))
			V("e2e.vt-mode", "VT %d of the enabled application is in text mode, takes keys or is not process-switched", sh->fg);
		for (int v = 1; v < NVT; v++) {
			bool sess = false;
			for (int i = 0; i < sh->na; i++)
				if (sh->a[i].alive && sh->a[i].state == A_OPEN && sh->a[i].session == v) sess = true;
			if (!sess && (sh->vt[v].kd != KD_TEXT || sh->vt[v].kb == K_OFF))
				V("e2e.vt-left", "VT %d, which has no session any more, is left in graphics mode or without keyboard (%s)", v, when);
		}
		S("check.vt");
	} else if (!sh->builtin) {
		if (n_open && !n_en && !n_held) V("e2e.idle-seat", "no application is enabled although %d have the seat open (%s)", n_open, when);
		// a switch that nothing disturbed has reached its target
		S("check.idle");
	} else {
		for (int i = 0; i < sh->na; i++)
			if (sh->a[i].alive && sh->a[i].state == A_OPEN && !sh->a[i].enabled) V("e2e.idle-seat", "the only application of an embedded server is not enabled");
		S("check.idle");
	}
	for (int i = 0; i < sh->na; i++) {
		App &a = sh->a[i];
		if (a.sw_target < 0 || !a.sw_clean) continue;
		App &t = sh->a[a.sw_target];
		if (a.pending) continue;
		S("check.switch-target");
		if (t.alive && t.state == A_OPEN && !t.enabled) V("e2e.switch-lost", "application %d switched to application %d, which is not enabled", i, a.sw_target);
		a.sw_target = -1;
	}
}
static void run_quiet(const char *when) {
	while (step())
		;
	quiescent(when);
}
static bool idle_app(int i) { return sh->a[i].alive && sh->a[i].cmd == K_NONE && sh->a[i].call == C_NO; }
static void give_cmd(int i, int cmd, int arg) {
	L("-> app %d: %s %d", i, cmdname[cmd], arg);
	sh->a[i].cmd = cmd;
	sh->a[i].arg = arg;
	sh->gen++;
}
static void one_case() {
	size_t keep = offsetof(Sh, vtag);
	(void)keep;
	memset(sh, 0, sizeof *sh);
	sem_init(&sh->ctl, 1, 0);
	for (auto &p : sh->p) { sem_init(&p.sem, 1, 0); p.fault_at = -1; p.deadline = -1; }
	for (auto &v : sh->vt) { v.kd = KD_TEXT; v.kb = K_UNICODE; v.mode = VT_AUTO; v.newvt = -1; v.owner = -1; }
	sh->fg = 1;
	sh->holder = -1;
	last_slot = -1;
	last_state = 0;
	DAEMON = -1;
	sh->builtin = run.profile == "builtin";
	sh->vtbound = rng.pct(60);
	sh->eintr_pct = rng.pct(25) ? rng.range(5, 30) : 0;
	keep_pct = rng.pct(30) ? 0 : rng.range(10, 90);
	setenv("SEATD_VTBOUND", sh->vtbound ? "1" : "0", 1);
	setenv("LIBSEAT_BACKEND", sh->builtin ? "builtin" : "seatd", 1);
	setenv("SEATD_SOCK", sockpath, 1);
	unlink(sockpath);
	libseat_set_log_level(rng.pct(50) ? LIBSEAT_LOG_LEVEL_DEBUG : LIBSEAT_LOG_LEVEL_SILENT);
	bool kill_server = rng.pct(sh->builtin ? 15 : 5);
	bool faults = sh->builtin && !kill_server && rng.pct(25);
	int maxapps = sh->builtin ? (sh->vtbound ? 2 : 1) : rng.range(1, NA);
	int nvt = rng.range(2, 4);
	if (!sh->builtin) {
		spawn_daemon();
		while (step())
			;
		if (sh->p[DAEMON].state == P_DEAD) broken("the daemon did not start: %d", sh->p[DAEMON].code);
		daemon_fds = count_fds(sh->p[DAEMON].pid);
	}
	int budget = rng.range(10, 60);
	int burst_pct = rng.range(10, 90);
	int wh = rng.pct(40) ? 40 : 10;
	auto policy = [&] { return rng.pct(wh) ? 2 : (int)rng.below(4); };
	auto arm = [&](int i) {
		if (!faults) return;
		// one failing system call in the application or in its future server
		Proc &p = sh->p[sh->a[i].slot];
		if (rng.pct(50)) p.fault_at = (int)rng.below(rng.pct(60) ? 8 : 40);
		else if (sh->np < NP) sh->p[sh->np].fault_at = (int)rng.below(rng.pct(60) ? 25 : 120);
	};
	spawn_app(sh->na++, policy());
	arm(0);
	while (budget-- > 0) {
		// let things run for a while, or until nothing moves
		if (rng.pct(burst_pct)) {
			int k = rng.range(1, 60);
			while (k-- > 0 && step())
				;
		} else run_quiet("between actions");
		for (int i = 0; i < sh->na; i++)
			if (sh->a[i].alive && sh->p[sh->a[i].slot].state == P_DEAD) app_gone(i);
		int w = (int)rng.below(100);
		int i = (int)rng.below((uint32_t)sh->na);
		App &a = sh->a[i];
		if (w < 10 && sh->na < maxapps && sh->np + 3 < NP) {
			if (sh->builtin && sh->vtbound) {
				// another application starts on another VT
				bool free_vt = !choosing_vt();
				for (int k = 0; k < sh->na; k++)
					if (sh->a[k].alive && (sh->a[k].session == sh->fg || sh->a[k].session == -1)) free_vt = false;
				// the server of an application that left tidies up the VT on its own time
				for (int k = 0; k < sh->np; k++)
					if (sh->p[k].role == R_EMBEDDED && sh->p[k].state != P_DEAD && !sh->a[sh->p[k].app].alive) free_vt = false;
				for (int k = 0; k < sh->np; k++)
					if (sh->p[k].role == R_APP && sh->p[k].state != P_DEAD && sh->a[sh->p[k].app].cmd) free_vt = false;
				if (!free_vt) continue;
			}
			spawn_app(sh->na, policy());
			sh->na++;
			arm(sh->na - 1);
		} else if (w < 22 && sh->vtbound) {
			for (int k = 0; k < 40 && !servers_idle() && step(); k++)
				;
			if (servers_idle() && !choosing_vt()) chvt(rng.range(1, nvt));
		} else if (w < 26 && a.alive) {
			if (a.enabled || a.pending) S("crash-active");
			kill_proc(a.slot);
			app_gone(i);
			S("app-killed");
		} else if (w < 29 && a.alive && idle_app(i)) {
			for (auto &x : sh->a) x.sw_clean = x.sw_target == i ? false : x.sw_clean;
			give_cmd(i, K_EXIT, 0);
		} else if (w < 32 && kill_server) {
			int s = sh->builtin ? a.server : DAEMON;
			if (s < 0 || sh->p[s].state == P_DEAD) continue;
			sh->relaxed = true;
			sh->server_dead = true;
			kill_server = false;
			if (rng.pct(50)) { L("SIGTERM to the server"); sh->p[s].term = true; send_signal(s, SIGTERM); sh->gen++; }
			else kill_proc(s);
			S("server-killed");
		} else if (a.alive && idle_app(i)) {
			int x = (int)rng.below(100);
			if (a.withheld && rng.pct(40)) give_cmd(i, K_ACK, 0);
			else if (a.state == A_CLOSED) {
				if (sh->builtin && sh->vtbound) {
					bool free_vt = !choosing_vt();
					for (int k = 0; k < sh->na; k++)
						if (k != i && sh->a[k].alive && (sh->a[k].session == sh->fg || sh->a[k].state == A_OPENING)) free_vt = false;
					for (int k = 0; k < sh->np; k++)
						if (sh->p[k].role == R_EMBEDDED && sh->p[k].state != P_DEAD && !sh->a[sh->p[k].app].alive) free_vt = false;
					if (!free_vt) continue;
				}
				if (rng.pct(50) && sh->np + 1 < NP) give_cmd(i, K_REOPEN, 0);
			} else if (x < 40) give_cmd(i, K_OPENDEV, (int)rng.below(NDEV) + (rng.pct(25) ? 100 * (rng.pct(70) ? rng.range(MAX_PATH_LEN - 5, MAX_PATH_LEN + 3) : rng.range(20, 300)) : 0));
			else if (x < 55) give_cmd(i, K_CLOSEDEV, (int)rng.below(12));
			else if (x < 58) give_cmd(i, K_BADCLOSE, (int)rng.below(9));
			else if (x < 80) {
				int n = sh->vtbound ? rng.range(rng.pct(5) ? 0 : 1, nvt) : rng.range(rng.pct(10) ? 0 : 1, std::max(2, sh->session_cnt));
				// remember the target if nothing else can interfere
				if (!sh->vtbound && !sh->builtin && a.enabled && !a.pending) {
					for (int k = 0; k < sh->na; k++) sh->a[k].sw_clean = false;
					int t = -1;
					for (int k = 0; k < sh->na; k++)
						if (k != i && sh->a[k].alive && sh->a[k].state == A_OPEN && sh->a[k].session == n) t = k;
					bool alone = true;
					for (int k = 0; k < sh->na; k++)
						if (sh->a[k].alive && sh->a[k].cmd) alone = false;
					run_quiet("before a switch");
					if (!a.alive || !idle_app(i) || !a.enabled || a.pending) continue;
					if (t >= 0 && (!sh->a[t].alive || sh->a[t].state != A_OPEN)) continue;
					if (alone && t >= 0 && n > 0) { a.sw_target = t; a.sw_clean = true; }
				}
				give_cmd(i, K_SWITCH, n);
			} else if (x < 84) {
				for (auto &y : sh->a) y.sw_clean = y.sw_target == i ? false : y.sw_clean;
				give_cmd(i, K_CLOSE, 0);
			} else if (x < 90 && a.blocking < 4) give_cmd(i, K_BLOCK, rng.pct(50) ? 0 : rng.range(1, 2000));
			else if (x < 94) a.policy = policy();
			else give_cmd(i, K_NAME, 0);
		}
	}
	run_quiet("at the end");
	// everybody leaves
	std::vector<int> order;
	for (int i = 0; i < sh->na; i++) order.push_back(i);
	for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rng.below((uint32_t)i)]);
	for (int i : order) {
		App &a = sh->a[i];
		if (!a.alive) continue;
		if (rng.pct(25)) {
			kill_proc(a.slot);
			app_gone(i);
		} else if (rng.pct(40)) {
			give_cmd(i, K_EXIT, 0);
			while (step())
				;
			app_gone(i);
		} else {
			give_cmd(i, K_CLOSE, 0);
			while (step())
				;
			if (a.state != A_CLOSED) V("e2e.deadlock", "application %d cannot close its seat", i);
			give_cmd(i, K_EXIT, 0);
			while (step())
				;
			app_gone(i);
		}
		run_quiet("after an application left");
	}
	if (!sh->builtin && !sh->server_dead) {
		int n = count_fds(sh->p[DAEMON].pid);
		if (n != daemon_fds) V("e2e.server-fds", "seatd has %d descriptors without clients, it started with %d", n, daemon_fds);
		S("check.server-fds");
		send_signal(DAEMON, rng.pct(50) ? SIGTERM : SIGINT);
		sh->gen++;
		while (step())
			;
		if (sh->p[DAEMON].state != P_DEAD) V("e2e.stop", "seatd does not stop");
		if (sh->p[DAEMON].code != 0) V("e2e.stop", "seatd stops with status %d", sh->p[DAEMON].code);
	}
	collect();
	if (!(sh->server_dead && !sh->builtin && sh->p[DAEMON].state != P_DEAD))
		for (int i = 0; i < sh->no; i++)
			if (sh->o[i].alive) V("e2e.left-open", "%s is still open when everybody has gone", sh->o[i].kind == O_TTY ? "a console" : devpath[sh->o[i].idx]);
	for (int i = 0; i < sh->np; i++)
		if (sh->p[i].state != P_DEAD) V("e2e.left-running", "process %d is still running when everybody has gone", i);
	S("check.end");
	flush_log();
	kill_all();
}
int main(int argc, char **argv) {
	setup(argc, argv, "e2e_sim");
	cpu_limit(0);
	snprintf(sockpath, sizeof sockpath, "%s/sock", run.scratch.empty() ? "/tmp" : run.scratch.c_str());
	sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	if (socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, chan[0]) == -1) broken("socketpair");
	struct sigaction sa = {};
	sa.sa_handler = on_chld;
	sigaction(SIGCHLD, &sa, nullptr);
	libseat_set_log_handler(quiet_log);
	double t0 = now_s();
	for (uint64_t c = 0; c < run.case_count; c++) {
		run.case_cur = run.case_from + c;
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		rng.seed(run.seed, run.case_cur);
		trace_reset();
		one_case();
		cases_run++;
		cases_nontrivial++;
		cases_seen.insert(case_hash);
		if (sample.empty())
			for (auto &l : trace_ring) sample += l + "; ";
	}
	dump_stats();
	return 0;
}
