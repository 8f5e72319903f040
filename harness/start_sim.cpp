// Start-up and shutdown of the daemon: the real main() with real files and
// sockets in a scratch directory, one process per case, failing system calls.
#include <grp.h>
#include <pwd.h>
#include <sys/wait.h>
#include "io.hpp"
using namespace vh;
extern "C" {
int seatd_main(int, char **);
char start_sock_path[256];
}
static std::string P, D, T; // socket path, directory, link target
static int listen_fd = -1;
static bool served, mutated, ended_by_signal, bad_end;
static int n_bind, n_unlink, n_chmod, n_chown;
static int ready_r = -1, ready_w = -1, ready_no = -1, ready_writes;
static bool ready_faulted;

// ---- fault plan: the nth call of a function fails
static std::string f_name;
static int f_nth, f_err;
static bool f_fired, f_before_serving;
static int fault_at(const char *w) {
	if (f_name != w || f_fired) return 0;
	if (f_nth-- > 0) return 0;
	f_fired = true;
	f_before_serving = !served;
	return f_err;
}

struct Id { int err; dev_t d; ino_t i; mode_t m; uid_t u; gid_t g; nlink_t n; std::string data; };
static Id ident(const std::string &p) {
	Id r = {};
	struct stat s;
	if (lstat(p.c_str(), &s)) { r.err = errno; return r; }
	r.d = s.st_dev; r.i = s.st_ino; r.m = s.st_mode; r.u = s.st_uid; r.g = s.st_gid; r.n = s.st_nlink;
	if (S_ISREG(s.st_mode)) {
		int fd = open(p.c_str(), O_RDONLY);
		char b[64];
		ssize_t n = read(fd, b, sizeof b);
		if (n > 0) r.data.assign(b, (size_t)n);
		close(fd);
	}
	return r;
}
static bool same(const Id &a, const Id &b) {
	return a.err == b.err && (a.err || (a.d == b.d && a.i == b.i && a.m == b.m && a.u == b.u && a.g == b.g && a.n == b.n && a.data == b.data));
}

// ---- options
struct Want {
	bool early = false, early_ok = false;
	int level = 2;
	int uid = -1, gid = -1, ready = -1;
	bool z = false;
	bool doubtful = false;
};
static std::vector<std::string> args;
static Want want;

// ---- clients
struct Cl { int fd; bool closed = false; };
static std::vector<Cl> cls;
static int connect_client() {
	struct sockaddr_un a = {};
	a.sun_family = AF_UNIX;
	snprintf(a.sun_path, sizeof a.sun_path, "%s", P.c_str());
	int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
	if (connect(fd, (struct sockaddr *)&a, sizeof a)) { int e = errno; close(fd); errno = e; return -1; }
	return fd;
}
static mode_t um;
static gid_t dir_gid;
static bool dir_sgid;
static void check_owner(const char *when) {
	struct stat s;
	if (lstat(P.c_str(), &s)) violation("start.socket", "no socket at its path %s: %s", when, strerror(errno));
	if (!S_ISSOCK(s.st_mode)) violation("start.socket", "not a socket at its path %s", when);
	uid_t u = geteuid();
	gid_t g = dir_sgid ? dir_gid : getegid();
	mode_t m = 0777 & ~um;
	if (want.uid != -1 || want.gid != -1) {
		if (want.uid != -1) u = (uid_t)want.uid;
		if (want.gid != -1) g = (gid_t)want.gid;
		m = 0770;
		st("check.owner");
	} else st("check.default-owner");
	if ((s.st_mode & 07777) != m) violation("start.mode", "socket mode is %o instead of %o %s", s.st_mode & 07777, m, when);
	if (s.st_uid != u || s.st_gid != g)
		violation("start.owner", "socket owner is %d:%d instead of %d:%d %s", (int)s.st_uid, (int)s.st_gid, (int)u, (int)g, when);
}

extern "C" {
int sim_bind(int fd, const struct sockaddr *a, socklen_t l) {
	io::step("bind", fd);
	n_bind++;
	if (int e = io::fault("bind", fd)) { errno = e; return -1; }
	umask(um);
	int r = bind(fd, a, l), e = errno;
	umask(022);
	tr("bind(%d) = %d", fd, r);
	if (r == 0) mutated = true;
	errno = e;
	return r;
}
int sim_listen(int fd, int n) {
	io::step("listen", fd);
	if (int e = io::fault("listen", fd)) { errno = e; return -1; }
	int r = listen(fd, n);
	tr("listen(%d) = %d", fd, r);
	if (r == 0) listen_fd = fd;
	return r;
}
static int x_chmod(const char *p, mode_t m) {
	io::step("chmod", -1);
	n_chmod++;
	if (int e = io::fault("chmod", -1)) { errno = e; return -1; }
	int r = chmod(p, m), e = errno;
	tr("chmod(%s, %o) = %d", p, m, r);
	errno = e;
	return r;
}
static int x_chown(const char *p, uid_t u, gid_t g, bool l) {
	io::step("chown", -1);
	n_chown++;
	if (int e = io::fault("chown", -1)) { errno = e; return -1; }
	int r = l ? lchown(p, u, g) : chown(p, u, g), e = errno;
	tr("chown(%s, %d, %d) = %d", p, (int)u, (int)g, r);
	errno = e;
	return r;
}
int sim_chmod(const char *p, mode_t m) { return x_chmod(p, m); }
int sim_fchmodat(int, const char *p, mode_t m, int) { return x_chmod(p, m); }
int sim_fchmod(int fd, mode_t m) { n_chmod++; if (int e = io::fault("chmod", fd)) { errno = e; return -1; } return fchmod(fd, m); }
int sim_chown(const char *p, uid_t u, gid_t g) { return x_chown(p, u, g, false); }
int sim_lchown(const char *p, uid_t u, gid_t g) { return x_chown(p, u, g, true); }
int sim_fchownat(int, const char *p, uid_t u, gid_t g, int) { return x_chown(p, u, g, false); }
int sim_fchown(int fd, uid_t u, gid_t g) { n_chown++; if (int e = io::fault("chown", fd)) { errno = e; return -1; } return fchown(fd, u, g); }
static int x_stat(const char *p, struct stat *s, bool l) {
	io::step("lstat", -1);
	if (int e = io::fault("lstat", -1)) { errno = e; return -1; }
	return l ? lstat(p, s) : stat(p, s);
}
int sim_lstat(const char *p, struct stat *s) { return x_stat(p, s, true); }
int sim_lstat64(const char *p, struct stat *s) { return x_stat(p, s, true); }
int sim_stat(const char *p, struct stat *s) { return x_stat(p, s, false); }
int sim_stat64(const char *p, struct stat *s) { return x_stat(p, s, false); }
int sim_fstatat(int, const char *p, struct stat *s, int f) { return x_stat(p, s, f & AT_SYMLINK_NOFOLLOW); }
static int x_unlink(const char *p) {
	io::step("unlink", -1);
	n_unlink++;
	if (int e = io::fault("unlink", -1)) { errno = e; return -1; }
	std::string q = p;
	if (q != P) violation("start.unlink", "removes %s", p);
	int r = unlink(p), e = errno;
	tr("unlink(%s) = %d", p, r);
	errno = e;
	return r;
}
int sim_unlink(const char *p) { return x_unlink(p); }
int sim_unlinkat(int, const char *p, int) { return x_unlink(p); }
int sim_remove(const char *p) { return x_unlink(p); }
int sim_rmdir(const char *p) { violation("start.unlink", "rmdir(%s)", p); }
int sim_rename(const char *a, const char *b) { violation("start.unlink", "rename(%s, %s)", a, b); }
}

static int script_left, polls, after_signal;
static bool signalled;
static bool polled;
static void on_serving() {
	served = true;
	if (listen_fd == -1) violation("start.socket", "serving without a listening socket");
	check_owner("when serving starts");
	if (want.ready == ready_no && ready_no != -1) {
		if (ready_writes != 1 && !ready_faulted) violation("start.ready", "%d newlines announced when serving starts", ready_writes);
		if (io::owned.count(ready_w)) violation("start.ready", "readiness descriptor still open when serving starts");
		st("check.ready");
	}
	tr("serving");
}
static int my_poll(struct pollfd *p, nfds_t n, int) {
	polls++;
	if (!polled) {
		polled = true;
		bool in = false;
		for (nfds_t i = 0; i < n; i++) in |= p[i].fd == listen_fd && (p[i].events & POLLIN);
		if (!in) violation("start.socket", "the listening socket is not polled");
	}
	if (signalled && ++after_signal > 3) violation("stop.slow", "still running %d polls after the stop signal", after_signal);
	for (int tries = 0;; tries++) {
		for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
		int r = poll(p, n, 0);
		if (r > 0) return r;
		if (tries > 100) broken("nothing to do");
		if (signalled) violation("stop.slow", "sleeps although a stop signal is pending");
		if (script_left-- <= 0) {
			int s = rng.pct(50) ? SIGTERM : SIGINT;
			tr("raise %d", s);
			signalled = ended_by_signal = true;
			raise(s);
			if (rng.pct(50)) { errno = EINTR; return -1; }
			continue;
		}
		int k = (int)rng.below(10);
		if (k < 4 && cls.size() < 5) {
			int fd = connect_client();
			if (fd == -1) violation("start.refused", "cannot connect to the running server: %s", strerror(errno));
			cls.push_back({fd});
			tr("client %zu connects", cls.size() - 1);
			st("clients");
		} else if (k < 8 && !cls.empty()) {
			Cl &c = cls[rng.below((uint32_t)cls.size())];
			uint16_t m[2] = {(uint16_t)(rng.pct(50) ? 1 : rng.range(0, 9)), 0};
			if (!c.closed && send(c.fd, m, sizeof m, MSG_NOSIGNAL) < 0) c.closed = true;
		} else if (k == 8) {
			raise(rng.pct(50) ? SIGUSR1 : SIGUSR2);
		} else if (!cls.empty()) {
			Cl &c = cls[rng.below((uint32_t)cls.size())];
			if (!c.closed) { shutdown(c.fd, SHUT_RDWR); c.closed = true; }
		}
	}
}

static const char *errs(const char *n) { return n; }
static void choose_args() {
	auto add = [&](std::string s) { args.push_back(s); };
	static const char *users[] = {"root", "daemon", "bin", "nobody", "nosuchuser"};
	static const char *groups[] = {"root", "daemon", "bin", "nogroup", "nosuchgroup", "tty"};
	static const char *levels[] = {"debug", "info", "error", "silent", "loud", ""};
	int n = rng.pct(25) ? 0 : rng.range(1, 4);
	auto opt = [&](char c, const std::string &v) {
		if (rng.pct(60)) { add(std::string("-") + c); add(v); }
		else if (v.empty()) { add(std::string("-") + c); add(v); }
		else add(std::string("-") + c + v);
	};
	bool used_n = false;
	for (int i = 0; i < n && !want.early; i++) {
		switch (rng.below(9)) {
		case 0: case 1: {
			std::string u = users[rng.below(rng.pct(15) ? 5 : 4)];
			opt('u', u);
			struct passwd *pw = getpwnam(u.c_str());
			if (want.z || !pw) want.early = true;
			else want.uid = (int)pw->pw_uid;
			break;
		}
		case 2: case 3: {
			std::string g = groups[rng.below(6)];
			if (g == "nosuchgroup" && rng.pct(70)) g = "bin";
			opt('g', g);
			struct group *gr = getgrnam(g.c_str());
			if (want.z || !gr) want.early = true;
			else want.gid = (int)gr->gr_gid;
			break;
		}
		case 4: case 5:
			if (used_n) break;
			used_n = true;
			if (rng.pct(10)) { opt('n', std::to_string(-rng.range(1, 9))); want.early = true; }
			else if (rng.pct(8)) { opt('n', "250"); want.ready = 250; io::own(250, io::OTHER); }
			else { opt('n', std::to_string(ready_no)); want.ready = ready_no; }
			break;
		case 6: {
			std::string l = levels[rng.below(rng.pct(15) ? 6 : 4)];
			opt('l', l);
			want.level = l == "debug" ? 3 : l == "info" ? 2 : l == "error" ? 1 : 0;
			if (l != "debug" && l != "info" && l != "error" && l != "silent") want.early = true;
			break;
		}
		case 7:
			if (rng.pct(70)) {
				add("-z");
				if (want.uid != -1 || want.gid != -1) want.early = true;
				else want.z = true;
			} else if (rng.pct(30)) {
				static const char *bad[] = {"-x", "-q", "-0", "--z"};
				add(bad[rng.below(3)]);
				want.early = true;
			}
			break;
		case 8:
			if (rng.pct(25)) { add(rng.pct(50) ? "-h" : "-v"); want.early = want.early_ok = true; }
			else if (rng.pct(10)) { add(rng.pct(50) ? "-u" : "-n"); want.early = true; i = n; } // option without its argument
			break;
		}
	}
	// anything may follow an option that ends the program
	if (want.early && rng.pct(30) && args.back() != "-u" && args.back() != "-n") { add("-z"); add("-l"); add("debug"); }
}

static std::string slurp(int fd) {
	std::string s;
	char b[4096];
	ssize_t n;
	for (off_t o = 0; (n = pread(fd, b, sizeof b, o)) > 0; o += n) s.append(b, n);
	return s;
}
// what was printed fits the options: levels by severity, 1 error to 3 debug
static int logged[4];
static void check_messages(const std::string &err, const std::string &out, const std::string &line) {
	static const char *head[] = {"", "[ERROR]", "[INFO]", "[DEBUG]"};
	for (size_t p = 0; p < err.size();) {
		size_t e = err.find('\n', p);
		if (e == std::string::npos) e = err.size();
		std::string l = err.substr(p, e - p);
		p = e + 1;
		for (int i = 1; i < 4; i++) {
			size_t h = l.find(head[i]);
			if (h == std::string::npos || h > 20) continue;
			logged[i]++;
			if (want.early) continue;
			st("log.lines");
			if (i > want.level) violation("start.loglevel", "with%s it logs: %.100s", line.c_str(), l.c_str());
		}
	}
	if (want.early) {
		if (want.early_ok && out.empty()) violation("start.option", "nothing is printed with%s", line.c_str());
		if (!want.early_ok && err.empty()) violation("start.message", "refused without a message:%s", line.c_str());
	} else {
		if (want.level >= 2 && served && !logged[2]) violation("start.loglevel", "no messages of level info with%s", line.c_str());
		st(std::string("check.loglevel-" + std::to_string(want.level)).c_str());
	}
}
static void child(uint64_t idx, int statfd) {
	stats.clear();
	rng.seed(run.seed * 7919 + 3, idx);
	trace_reset();
	io::reset();
	io::track = false;
	io::call_limit = 20000;
	cpu_limit(30);
	alarm(40);
	D = run.scratch + "/c" + std::to_string(idx);
	if (mkdir(D.c_str(), 0755)) broken("mkdir %s: %s", D.c_str(), strerror(errno));
	P = D + "/seatd.sock";
	T = D + "/target";
	if (P.size() > 100) broken("scratch path too long");
	snprintf(start_sock_path, sizeof start_sock_path, "%s", P.c_str());
	um = (mode_t[]){022, 077, 0, 027}[rng.below(4)];
	umask(022);
	if (rng.pct(20)) {
		dir_sgid = true;
		dir_gid = 5;
		if (chown(D.c_str(), 0, 5) || chmod(D.c_str(), 02755)) broken("chown does not work here");
	}
	switch (rng.below(3)) {
	case 0: setenv("SEATD_VTBOUND", "0", 1); break;
	case 1: setenv("SEATD_VTBOUND", "1", 1); break;
	default: unsetenv("SEATD_VTBOUND");
	}
	// readiness pipe
	int pp[2];
	if (pipe(pp)) broken("pipe");
	ready_r = fcntl(pp[0], F_DUPFD_CLOEXEC, 200);
	ready_w = ready_no = fcntl(pp[1], F_DUPFD, 30 + (int)rng.below(20));
	close(pp[0]);
	close(pp[1]);
	fcntl(ready_r, F_SETFL, O_NONBLOCK);
	choose_args();
	if (want.ready == ready_no) io::own(ready_w, io::OTHER);
	// what is at the path already
	enum Pre { NONE, STALE, LIVE, REG, DIR_, FIFO, LREG, LSOCK, LDANG } pre = NONE;
	int k = (int)rng.below(100);
	if (k < 40) pre = NONE;
	else if (k < 58) pre = STALE;
	else if (k < 66) pre = LIVE;
	else if (k < 75) pre = REG;
	else if (k < 80) pre = DIR_;
	else if (k < 85) pre = FIFO;
	else if (k < 90) pre = LREG;
	else if (k < 96) pre = LSOCK;
	else pre = LDANG;
	int live = -1;
	auto mksock = [&](const std::string &p, bool l) {
		struct sockaddr_un a = {};
		a.sun_family = AF_UNIX;
		snprintf(a.sun_path, sizeof a.sun_path, "%s", p.c_str());
		int fd = socket(AF_UNIX, SOCK_STREAM, 0);
		if (bind(fd, (struct sockaddr *)&a, sizeof a)) broken("bind: %s", strerror(errno));
		if (l) { listen(fd, 4); live = fd; }
		else close(fd);
	};
	auto mkreg = [&](const std::string &p) {
		int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0640);
		if (write(fd, "precious", 8) != 8) broken("write");
		close(fd);
	};
	const char *pn[] = {"nothing", "a stale socket", "a live socket", "a file", "a directory", "a fifo", "a link to a file", "a link to a socket", "a dangling link"};
	switch (pre) {
	case NONE: break;
	case STALE: mksock(P, false); break;
	case LIVE: mksock(P, true); break;
	case REG: mkreg(P); break;
	case DIR_: mkdir(P.c_str(), 0755); break;
	case FIFO: mkfifo(P.c_str(), 0644); break;
	case LREG: mkreg(T); if (symlink(T.c_str(), P.c_str())) broken("symlink"); break;
	case LSOCK: mksock(T, rng.pct(50)); if (symlink(T.c_str(), P.c_str())) broken("symlink"); break;
	case LDANG: if (symlink(T.c_str(), P.c_str())) broken("symlink"); break;
	}
	// faults
	if (rng.pct(40)) {
		struct F { const char *n; int max; std::vector<int> e; };
		static const F fs[] = {
			{"socket", 0, {EMFILE, ENOBUFS}}, {"bind", 0, {EADDRINUSE, EACCES, ENOENT, EROFS}}, {"listen", 0, {EADDRINUSE, ENOBUFS}},
			{"chmod", 0, {EPERM, EROFS, ENOENT}}, {"chown", 0, {EPERM, EROFS, ENOENT}}, {"unlink", 1, {EACCES, EPERM, ENOENT, EROFS}},
			{"lstat", 0, {EACCES, EIO, ENOENT}}, {"pipe", 0, {EMFILE}}, {"poll", 3, {ENOMEM, EFAULT}},
			{"write", 0, {EPIPE, EBADF, EAGAIN, EINTR}}, {"accept", 1, {ECONNABORTED, EMFILE}}, {"alloc", 0, {}}};
		const F &f = fs[rng.below(12)];
		if (!strcmp(f.n, "alloc")) io::alloc_countdown = rng.range(0, 14);
		else {
			f_name = f.n;
			f_nth = rng.range(0, f.max);
			f_err = f.e[rng.below((uint32_t)f.e.size())];
		}
		plan_note = std::string("fault ") + f.n;
	}
	io::hk.fail = [&](const char *w, int fd) -> int {
		if (!strcmp(w, "write") && (fd != ready_w || want.ready != ready_no)) return 0;
		int e = fault_at(w);
		if (e && !strcmp(w, "write")) ready_faulted = true;
		return e;
	};
	io::hk.poll = my_poll;
	int early = rng.pct(10) ? rng.range(1, 12) : 0;
	io::hk.before = [&](const char *w, int fd) {
		if (early && !signalled) {
			struct sigaction sa;
			sigaction(SIGTERM, nullptr, &sa);
			if (sa.sa_handler != SIG_DFL && --early == 0) {
				tr("raise 15 at %s", w);
				signalled = ended_by_signal = true;
				st("signal.at-syscall");
				raise(SIGTERM);
			}
		}
		if (!served && !strcmp(w, "poll")) on_serving();
		if (strcmp(w, "write") || fd != ready_w || want.ready != ready_no) return;
		ready_writes++;
		check_owner("when readiness is announced");
		int c = connect_client();
		if (c == -1) violation("start.ready-early", "readiness announced but connecting fails: %s", strerror(errno));
		close(c);
		st("check.ready-connect");
	};
	script_left = rng.range(0, 25);
	Id before = ident(P), tbefore = ident(T);
	std::string line;
	for (auto &a : args) line += " '" + a + "'";
	tr("seatd%s, %s at its path, umask %o, SEATD_VTBOUND=%s%s%s", line.c_str(), pn[pre], um, getenv("SEATD_VTBOUND") ? getenv("SEATD_VTBOUND") : "(unset)",
	   plan_note.empty() ? "" : ", ", plan_note.c_str());
	int log = memfd_create("log", MFD_CLOEXEC), outp = memfd_create("out", MFD_CLOEXEC);
	int log_hi = fcntl(log, F_DUPFD_CLOEXEC, 101), outp_hi = fcntl(outp, F_DUPFD_CLOEXEC, 102);
	int err = fcntl(2, F_DUPFD_CLOEXEC, 100), out = fcntl(1, F_DUPFD_CLOEXEC, 103);
	close(log);
	close(outp);
	fflush(stdout);
	dup2(log_hi, 2);
	dup2(outp_hi, 1);
	std::vector<char *> av;
	av.push_back((char *)"seatd");
	for (auto &a : args) av.push_back((char *)a.c_str());
	av.push_back(nullptr);
	optind = 0;
	int rc = seatd_main((int)av.size() - 1, av.data());
	fflush(stdout);
	fflush(stderr);
	dup2(err, 2);
	dup2(out, 1);
	tr("seatd returns %d", rc);
	check_messages(slurp(log_hi), slurp(outp_hi), line);
	Id after = ident(P), tafter = ident(T);
	bool alloc_f = io::injected_alloc;
	char b[64];
	ssize_t rn = read(ready_r, b, sizeof b);
	int announced = rn > 0 ? (int)rn : 0;
	st("check.exit");
	bool must_fail = false;
	if (want.early) {
		if (served || n_bind || n_unlink || n_chmod || n_chown || !same(before, after) || !same(tbefore, tafter))
			violation("start.option", "the path was touched in spite of%s", line.c_str());
		if (announced) violation("start.ready", "readiness announced in spite of%s", line.c_str());
		if (want.early_ok ? rc != 0 : rc == 0) violation("start.option", "exit status %d with%s", rc, line.c_str());
		st(want.early_ok ? "check.help" : "check.bad-options");
	} else {
		bool foreign = pre >= REG;
		if (foreign || (want.z && pre != NONE)) {
			must_fail = true;
			if (!same(before, after)) violation("start.clobber", "%s at the socket path was changed or removed", pn[pre]);
			if (!same(tbefore, tafter)) violation("start.clobber", "the target of %s was changed or removed", pn[pre]);
			st("check.refused");
		}
		if (f_fired && f_before_serving && (f_name == "socket" || f_name == "bind" || f_name == "listen" || f_name == "chmod" || f_name == "chown" ||
						    f_name == "unlink" || f_name == "pipe"))
			must_fail = true;
		if (must_fail) {
			if (want.level >= 1 && !logged[1]) violation("start.message", "start-up failed (%s, %s) without a message", f_fired ? f_name.c_str() : "no fault", pn[pre]);
			if (served) violation("start.serves", "serving in spite of %s%s%s", f_fired ? "failing " : "", f_fired ? f_name.c_str() : pn[pre], line.c_str());
			if (announced) violation("start.ready-early", "readiness announced although start-up failed");
			if (rc == 0) violation("start.status", "exit status 0 although start-up failed (%s, %s)", f_fired ? f_name.c_str() : "no fault", pn[pre]);
			st("check.failed-start");
		} else if (!f_fired && !alloc_f) {
			if (!served) violation("start.fails", "did not start:%s with %s at the path", line.c_str(), pn[pre]);
			if (rc != 0) violation("start.status", "exit status %d after a stop signal", rc);
			if (after.err != ENOENT) violation("start.left", "socket still there after the stop");
			st("check.clean-stop");
		} else if (!served && rc == 0) violation("start.status", "exit status 0 without ever serving");
		if (served) {
			if (want.ready == ready_no && !ready_faulted && (announced != 1 || b[0] != '\n')) violation("start.ready", "%d bytes announced on the readiness descriptor", announced);
			if (signalled && rc != 0 && !f_fired && !alloc_f) violation("start.status", "exit status %d after a stop signal", rc);
			for (auto &c : cls)
				if (!c.closed) {
					char buf[512];
					ssize_t n;
					while ((n = recv(c.fd, buf, sizeof buf, MSG_DONTWAIT)) > 0) {}
					if (n == -1 && errno == EAGAIN && listen_fd != -1 && io::owned.count(listen_fd)) {
						// never accepted: the process would take it along when it exits
						continue;
					}
					if (n == -1 && errno == EAGAIN) violation("stop.client", "a client is still connected after the stop");
					st("check.disconnected");
				}
		} else if (announced && !alloc_f) violation("start.ready-early", "readiness announced but never served");
	}
	if (live >= 0) close(live);
	// report
	std::string o;
	for (auto &kv : stats) o += kv.first + " " + std::to_string(kv.second) + "\n";
	char h[100];
	snprintf(h, sizeof h, "#hash %llx\n#state %llx\n", (unsigned long long)case_hash,
		 (unsigned long long)(pre * 1000000 + (want.early + 2 * want.z + 4 * (want.uid != -1) + 8 * (want.gid != -1) + 16 * (want.ready != -1)) * 1000 +
				      (f_fired ? (int)(f_name[0] * 7 + f_name[1]) % 500 : 0)));
	o += h;
	if (idx < 3 || run.verbose) {
		std::string s;
		for (auto &x : trace_ring) s += x + "; ";
		for (char &c : s) if (c == '\n') c = ' ';
		o += "#sample " + s + "\n";
	}
	if (write(statfd, o.data(), o.size()) < 0) {}
	_exit(0);
}

int main(int argc, char **argv) {
	setup(argc, argv, "start_sim");
	(void)errs;
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		run.case_cur = i;
		int sp[2];
		if (pipe(sp)) broken("pipe");
		fflush(stdout);
		pid_t p = fork();
		if (p == -1) broken("fork");
		if (p == 0) { close(sp[0]); child(i, fcntl(sp[1], F_DUPFD_CLOEXEC, 300)); }
		close(sp[1]);
		std::string o;
		char b[4096];
		ssize_t n;
		int stt;
		while (waitpid(p, &stt, 0) == -1 && errno == EINTR) {}
		fcntl(sp[0], F_SETFL, O_NONBLOCK);
		while ((n = read(sp[0], b, sizeof b)) > 0) o.append(b, (size_t)n);
		close(sp[0]);
		std::string d = run.scratch + "/c" + std::to_string(i);
		for (const char *f : {"/seatd.sock", "/target"}) { unlink((d + f).c_str()); rmdir((d + f).c_str()); }
		rmdir(d.c_str());
		if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
			int c = WIFEXITED(stt) ? WEXITSTATUS(stt) : -1;
			if (c == 20) { fflush(stdout); _exit(20); }
			if (c == 10) _exit(10);
			if (!run.vfile.empty() && access(run.vfile.c_str(), F_OK) == 0) _exit(10);
			if (WIFSIGNALED(stt)) violation("crash", "seatd died of signal %d", WTERMSIG(stt));
			violation("sanitizer", "seatd process ended with status %d", c);
		}
		size_t q = 0;
		while (q < o.size()) {
			size_t e = o.find('\n', q);
			std::string l = o.substr(q, e - q);
			q = e + 1;
			size_t s = l.rfind(' ');
			if (l.rfind("#hash ", 0) == 0) cases_seen.insert(strtoull(l.c_str() + 6, 0, 16));
			else if (l.rfind("#state ", 0) == 0) { states.insert(strtoull(l.c_str() + 7, 0, 16)); }
			else if (l.rfind("#sample ", 0) == 0) { if (sample.size() < 1200) sample += l.substr(8); }
			else stats[l.substr(0, s)] += strtoull(l.c_str() + s + 1, 0, 10);
		}
		cases_run++;
		cases_nontrivial++;
	}
	dump_stats();
	fflush(stdout);
	_exit(0);
}
