// seatd-launch with real processes: stand-ins for seatd and the command note
// what they see; failing system calls; the harness reaps everything.
#include <grp.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "common.hpp"
using namespace vh;
extern "C" {
int launch_main(int, char **);
char launch_sock[256], launch_seatd[256];
}

struct Entry { int pid; char s[120]; };
struct Shared {
	volatile int n;
	Entry e[400];
	volatile int seatd_pid, seatd_reaped, fork_count, kills, bad_kill;
	volatile int fired, fatal, fired_after_cmd;
	char bad[120];
	int cmd_pid;
};
static Shared *sh;
static void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char *fmt, ...) {
	int i = __sync_fetch_and_add(&sh->n, 1);
	if (i >= 400) return;
	sh->e[i].pid = (int)getpid();
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sh->e[i].s, sizeof sh->e[i].s, fmt, ap);
	va_end(ap);
}
static std::string f_name;
static int f_nth, f_err;
static bool f_fatal;
static pid_t l_pid;
static int spin;
static int fault(const char *w) {
	if (f_name.empty() || f_name != w || sh->fired) return 0;
	if (f_nth-- > 0) return 0;
	sh->fired = 1;
	sh->fatal = f_fatal;
	ev("fault: %s fails with %s", w, strerror(f_err));
	return f_err;
}
#define F(w) do { if (int e_ = fault(w)) { errno = e_; return -1; } } while (0)
extern "C" {
int sim_pipe2(int p[2], int fl) { F("pipe"); int r = pipe2(p, fl); ev("pipe = %d,%d", p[0], p[1]); return r; }
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
pid_t sim_fork(void) {
	F("fork");
	int k = __sync_fetch_and_add(&sh->fork_count, 1);
	pid_t p = fork();
	if (p > 0) {
		if (k == 0) sh->seatd_pid = p;
		else sh->cmd_pid = p;
		ev("fork = %d", (int)p);
	}
	return p;
}
pid_t sim_vfork(void) { return sim_fork(); }
pid_t sim_waitpid(pid_t p, int *s, int o) {
	if (int e = fault((o & WNOHANG) ? "waitpid-nohang" : "waitpid")) { errno = e; return -1; }
	pid_t r = waitpid(p, s, o);
	int e = errno;
	if (r > 0 && r == sh->seatd_pid) sh->seatd_reaped = 1;
	static int idle;
	if ((o & WNOHANG) && r == 0 && sh->cmd_pid && ++idle > 500) violation("spin", "seatd-launch asks for the end of the command over and over");
	if (!(o & WNOHANG) || r != 0) ev("waitpid(%d) = %d", (int)p, (int)r);
	errno = e;
	return r;
}
pid_t sim_wait(int *s) { return sim_waitpid(-1, s, 0); }
int sim_poll(struct pollfd *p, nfds_t n, int t) {
	F("poll");
	if (++spin > 200000) violation("spin", "seatd-launch polls on and on");
	int r = poll(p, n, t < 0 || t > 20 ? 20 : t);
	return r;
}
ssize_t sim_read(int fd, void *b, size_t n) {
	F("read");
	ssize_t r = read(fd, b, n);
	int e = errno;
	if (r > 0) ev("read(%d) = %zd", fd, r);
	errno = e;
	return r;
}
int sim_chown(const char *p, uid_t u, gid_t g) { F("chown"); int r = chown(p, u, g); int e = errno; ev("chown(%d, %d) = %d", (int)u, (int)g, r); errno = e; return r; }
int sim_lchown(const char *p, uid_t u, gid_t g) { F("chown"); return lchown(p, u, g); }
int sim_chmod(const char *p, mode_t m) { F("chmod"); int r = chmod(p, m); int e = errno; ev("chmod(%o) = %d", m, r); errno = e; return r; }
int sim_setgid(gid_t g) { F("setgid"); int r = setgid(g); int e = errno; ev("setgid(%d) = %d", (int)g, r); errno = e; return r; }
int sim_setuid(uid_t u) { F("setuid"); int r = setuid(u); int e = errno; ev("setuid(%d) = %d", (int)u, r); errno = e; return r; }
int sim_setresuid(uid_t a, uid_t b, uid_t c) { F("setuid"); return setresuid(a, b, c); }
int sim_setresgid(gid_t a, gid_t b, gid_t c) { F("setgid"); return setresgid(a, b, c); }
int sim_setreuid(uid_t a, uid_t b) { F("setuid"); return setreuid(a, b); }
int sim_setregid(gid_t a, gid_t b) { F("setgid"); return setregid(a, b); }
int sim_seteuid(uid_t a) { F("setuid"); return seteuid(a); }
int sim_setegid(gid_t a) { F("setgid"); return setegid(a); }
// only ever signals the stand-in daemon of this case
int sim_kill(pid_t p, int s) {
	ev("kill(%d, %d)", (int)p, s);
	sh->kills++;
	bool ours = p > 0 && (p == sh->seatd_pid || p == sh->cmd_pid);
	if (s && (!ours || p == sh->cmd_pid || (p == sh->seatd_pid && sh->seatd_reaped))) {
		sh->bad_kill++;
		snprintf(sh->bad, sizeof sh->bad, "kill(%d, %d)%s", (int)p, s, p == sh->seatd_pid ? ": that seatd is long gone" : "");
		errno = ESRCH;
		return -1;
	}
	if (!ours || (p == sh->seatd_pid && sh->seatd_reaped)) { errno = ESRCH; return -1; }
	return kill(p, s);
}
int sim_killpg(pid_t p, int s) { return sim_kill(-p, s); }
int sim_sigqueue(pid_t p, int s, union sigval) { return sim_kill(p, s); }
}

struct Rec {
	bool there = false;
	int pid = 0;
	long long time = 0;
	int u[3] = {}, g[3] = {};
	std::vector<std::string> args, env;
	std::map<int, std::pair<int, std::string>> fds;
	bool sock = false;
	int smode = 0, su = 0, sg = 0, issock = 0;
};
static Rec rec(const std::string &p) {
	Rec r;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return r;
	r.there = true;
	char *l = nullptr;
	size_t n = 0;
	ssize_t k;
	while ((k = getline(&l, &n, f)) > 0) {
		if (l[k - 1] == '\n') l[k - 1] = 0;
		if (!strncmp(l, "arg ", 4)) r.args.push_back(l + 4);
		else if (!strncmp(l, "env ", 4)) r.env.push_back(l + 4);
		else if (!strncmp(l, "fd ", 3)) {
			int fd, m, off;
			if (sscanf(l, "fd %d %d %n", &fd, &m, &off) >= 2) r.fds[fd] = {m, l + off};
		} else if (sscanf(l, "sock %o %d %d %d", &r.smode, &r.su, &r.sg, &r.issock) == 4) r.sock = true;
		else if (sscanf(l, "pid %d", &r.pid) == 1 || sscanf(l, "time %lld", &r.time) == 1 || sscanf(l, "uids %d %d %d", r.u, r.u + 1, r.u + 2) == 3 ||
			 sscanf(l, "gids %d %d %d", r.g, r.g + 1, r.g + 2) == 3) {}
	}
	free(l);
	fclose(f);
	return r;
}
static std::string D;
static void cleanup() {
	for (const char *f : {"plan", "seatd.rec", "cmd.rec", "announced", "seatd.state", "s.sock", "asan"}) unlink((D + "/" + f).c_str());
	if (rmdir(D.c_str()) && errno == ENOTEMPTY) {
		std::string c = "find '" + D + "' -maxdepth 1 -type f -delete; rmdir '" + D + "' 2>/dev/null";
		if (system(c.c_str())) {}
	}
}
static void run_case(uint64_t idx) {
	rng.seed(run.seed * 6007 + 9, idx);
	run.case_cur = idx;
	trace_reset();
	plan_note.clear();
	memset(sh, 0, sizeof *sh);
	spin = 0;
	D = run.scratch + "/l" + std::to_string(idx);
	if (mkdir(D.c_str(), 0777) || chmod(D.c_str(), 0777)) broken("mkdir %s: %s", D.c_str(), strerror(errno));
	snprintf(launch_sock, sizeof launch_sock, "%s/s.sock", D.c_str());
	bool exec_ok = !rng.pct(4);
	snprintf(launch_seatd, sizeof launch_seatd, "%s/bin/%s", run.scratch.c_str(), exec_ok ? "seatd" : "missing");
	int smode = rng.pct(65) ? 0 : (int[]){1, 2, 3, 4, 5, 9}[rng.below(6)];
	int sdelay = rng.pct(60) ? 0 : rng.range(100, rng.pct(15) ? 45000 : 4000);
	int cmode = rng.pct(70) ? 0 : 1;
	int cstatus = cmode == 1 ? (int[]){SIGTERM, SIGKILL, SIGINT, SIGUSR1, SIGPIPE, SIGHUP, SIGSEGV, SIGABRT, SIGALRM}[rng.below(9)] : (rng.pct(50) ? 0 : rng.range(1, 255));
	int cdelay = rng.pct(50) ? 0 : rng.range(100, 6000);
	{
		FILE *f = fopen((D + "/plan").c_str(), "w");
		fprintf(f, "%d %d %d %d %d %s\n", smode, sdelay, cmode | (rng.pct(30) ? 16 : 0), cstatus, cdelay, launch_sock);
		fclose(f);
		chmod((D + "/plan").c_str(), 0644);
	}
	// somebody else's socket (a seatd that runs already, or ran before) at the path
	bool foreign = smode != 2 && rng.pct(35);
	struct stat fst = {};
	if (foreign) {
		struct sockaddr_un a = {};
		a.sun_family = AF_UNIX;
		strncpy(a.sun_path, launch_sock, sizeof a.sun_path - 1);
		int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		if (fd == -1 || bind(fd, (struct sockaddr *)&a, sizeof a) || chmod(launch_sock, 0770) || chown(launch_sock, 0, 4242) || lstat(launch_sock, &fst)) broken("foreign socket: %s", strerror(errno));
		close(fd);
	}
	// arguments
	std::vector<std::string> args = {"seatd-launch"};
	std::string level = "info";
	enum { RUN, OK, BAD } kind = RUN;
	if (rng.pct(50)) {
		static const char *lv[] = {"debug", "info", "error", "silent", "x", "averyverylongloglevelindeed", "exactlyfifteenc", "exactly-sixteen!"};
		level = lv[rng.below(rng.pct(20) ? 8 : 4)];
		if (rng.pct(50)) { args.push_back("-l"); args.push_back(level); }
		else args.push_back("-l" + level);
	}
	if (rng.pct(4)) { args.push_back(rng.pct(50) ? "-h" : "-v"); kind = OK; }
	else if (rng.pct(4)) { args.push_back(rng.pct(50) ? "-x" : "-l"); kind = BAD; if (args.back() == "-x") args.push_back("true"); }
	std::vector<std::string> cmd;
	bool cmd_ok = true;
	if (kind == RUN) {
		if (rng.pct(4)) { kind = BAD; if (rng.pct(50)) args.push_back("--"); }
		else {
			cmd_ok = !rng.pct(4);
			bool path = rng.pct(50);
			cmd.push_back(cmd_ok ? (path ? run.scratch + "/bin/cmd" : "cmd") : (path ? run.scratch + "/bin/nocmd" : "nosuchcmd"));
			bool dashes = rng.pct(50);
			int n = (int)rng.below(4);
			static const char *pool[] = {"a", "--", "-l", "error", "", "x y", "-v"};
			// without "--" option-like arguments belong to seatd-launch
			for (int i = 0; i < n; i++) cmd.push_back(pool[rng.below(7)]);
			if (!dashes)
				for (auto &a : cmd)
					if (!a.empty() && a[0] == '-') dashes = true;
			if (dashes) args.push_back("--");
			for (auto &a : cmd) args.push_back(a);
		}
	}
	// who calls
	int uid = (int[]){65534, 1, 0, 12345}[rng.below(4)], gid = (int[]){65534, 1, 0, 54321}[rng.below(4)];
	bool sgid = rng.pct(40);
	// faults
	f_name.clear();
	if (kind == RUN && rng.pct(35)) {
		struct Fp { const char *n; int max, err; bool fatal; };
		static const Fp fs[] = {{"pipe", 0, EMFILE, true}, {"fork", 1, EAGAIN, true}, {"waitpid-nohang", 1, EINTR, false}, {"waitpid-nohang", 0, EINVAL, true},
					{"poll", 1, EINTR, false}, {"poll", 0, EAGAIN, false}, {"poll", 0, ENOMEM, true}, {"read", 0, EINTR, false}, {"read", 0, EIO, true},
					{"chown", 0, EPERM, true}, {"chown", 0, EROFS, true}, {"chmod", 0, EPERM, true}, {"setgid", 0, EPERM, true}, {"setuid", 0, EPERM, true}, {"setuid", 0, EAGAIN, true},
					{"waitpid", 0, EINTR, false}, {"waitpid", 0, ECHILD, true}};
		const Fp &f = fs[rng.below(17)];
		f_name = f.n;
		f_nth = rng.range(0, f.max);
		f_err = f.err;
		f_fatal = f.fatal;
		plan_note = std::string("fault ") + f.n + " " + strerror(f.err);
	}
	std::string line;
	for (auto &a : args) line += " '" + a + "'";
	tr("%s as %d:%d%s%s, seatd mode %d%s delay %d, command mode %d status %d delay %d%s%s", line.c_str(), uid, gid, sgid ? " (setgid too)" : "", foreign ? " (socket exists)" : "", smode, exec_ok ? "" : " (missing)", sdelay,
	   cmode, cstatus, cdelay, plan_note.empty() ? "" : ", ", plan_note.c_str());
	bool user_fd = rng.pct(30);
	fflush(stdout);
	pid_t p = fork();
	if (p == -1) broken("fork");
	if (p == 0) {
		setsid();
		l_pid = getpid();
		signal(SIGALRM, SIG_DFL);
		for (int s : {SIGPIPE, SIGABRT, SIGVTALRM, SIGILL, SIGFPE}) signal(s, SIG_DFL);
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		int n = open("/dev/null", O_RDWR);
		dup2(n, 0);
		int o1 = open((D + "/stdout").c_str(), O_CREAT | O_RDWR | O_APPEND, 0600), o2 = open((D + "/stderr").c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
		if (o1 < 0 || o2 < 0) _exit(93);
		dup2(o1, 1);
		dup2(o2, 2);
		syscall(SYS_close_range, 3, ~0u, 0);
		if (user_fd) dup2(0, 7);
		if (chdir(D.c_str())) _exit(90);
		clearenv();
		setenv("PATH", (run.scratch + "/bin").c_str(), 1);
		setenv("HOME", "/nowhere", 1);
		if (rng.pct(30)) setenv("SEATD_SOCK", "/wrong", 1);
		if (rng.pct(20)) setenv("LIBSEAT_BACKEND", "seatd", 1);
		setgroups(0, nullptr);
		if (setresgid((gid_t)gid, sgid ? 0 : (gid_t)gid, sgid ? 0 : (gid_t)gid)) _exit(91);
		if (setresuid((uid_t)uid, 0, 0)) _exit(92);
		alarm(20);
		std::vector<char *> av;
		for (auto &a : args) av.push_back((char *)a.c_str());
		av.push_back(nullptr);
		optind = 0;
		int rc = launch_main((int)av.size() - 1, av.data());
		fflush(stdout);
		_exit(rc & 255);
	}
	int stt = 0;
	while (waitpid(p, &stt, 0) == -1 && errno == EINTR) {}
	// what is left of its children becomes ours
	std::map<int, int> reaped;
	double t0 = now_s();
	bool left = false;
	for (;;) {
		int s;
		pid_t r = waitpid(-1, &s, WNOHANG);
		if (r > 0) { reaped[r] = s; continue; }
		if (r == -1 && errno == ECHILD) break;
		if (now_s() - t0 > 10) {
			left = true;
			killpg(p, SIGKILL);
			t0 = now_s() + 1e9;
		}
		usleep(200);
	}
	int rc = WIFEXITED(stt) ? WEXITSTATUS(stt) : -1;
	for (int i = 0; i < sh->n && i < 400; i++) tr("%s: %s", sh->e[i].pid == p ? "launch" : "child", sh->e[i].s);
	tr("seatd-launch ends with %s %d", WIFEXITED(stt) ? "status" : "signal", WIFEXITED(stt) ? rc : WTERMSIG(stt));
	Rec s = rec(D + "/seatd.rec"), c = rec(D + "/cmd.rec");
	long long ann = 0;
	if (FILE *f = fopen((D + "/announced").c_str(), "r")) { if (fscanf(f, "%lld", &ann) != 1) ann = 0; fclose(f); }
	struct stat now = {};
	bool still = lstat(launch_sock, &now) == 0;
	struct stat so = {}, se = {};
	stat((D + "/stdout").c_str(), &so);
	stat((D + "/stderr").c_str(), &se);
	char state = 0;
	if (FILE *f = fopen((D + "/seatd.state").c_str(), "r")) { if (fscanf(f, "%c", &state) != 1) state = 0; fclose(f); }
	cleanup();
	if (!WIFEXITED(stt)) {
		if (WTERMSIG(stt) == SIGALRM) violation("hang", "seatd-launch does not end");
		violation("crash", "seatd-launch died of signal %d", WTERMSIG(stt));
	}
	if (rc >= 90 && rc <= 93 && !s.there) broken("preparing the launcher failed: %d", rc);
	if (!run.vfile.empty() && access(run.vfile.c_str(), F_OK) == 0) _exit(10);
	if (sh->bad_kill) violation("launch.kill", "%s", sh->bad);
	if (left) violation("launch.seatd-left", "seatd still runs after seatd-launch ended");
	st("check.seatd-gone");
	if (foreign && !ann) {
		// without a seatd of its own there is nothing to hand over
		if (!still || now.st_ino != fst.st_ino || now.st_mode != fst.st_mode || now.st_uid != fst.st_uid || now.st_gid != fst.st_gid)
			violation("launch.foreign", "seatd never became ready, but the socket at its path was changed (mode %o owner %d:%d)", still ? now.st_mode & 07777 : 0, (int)now.st_uid, (int)now.st_gid);
		st("check.foreign-socket");
	}
	if (kind != RUN) {
		if (kind == OK && !so.st_size) violation("launch.option", "nothing is printed with%s", line.c_str());
		if (kind == BAD && !se.st_size) violation("launch.message", "refused without a message:%s", line.c_str());
		if (s.there || c.there || sh->fork_count) violation("launch.option", "something was started with%s", line.c_str());
		if (kind == OK ? rc != 0 : rc == 0) violation("launch.option", "exit status %d with%s", rc, line.c_str());
		st("check.options");
	} else {
		bool fatal = sh->fired && sh->fatal;
		bool seatd_bad = !exec_ok || smode == 1 || smode == 2 || smode == 4 || smode == 5 || smode == 9;
		bool after = fatal && f_name == "waitpid";
		if (s.there) {
			// how seatd is started
			std::vector<std::string> w;
			if (!s.env.empty()) violation("launch.seatd-env", "seatd is started with %s in its environment", s.env[0].c_str());
			bool z = false, l_ok = false;
			int n = -1;
			for (size_t i = 1; i < s.args.size(); i++) {
				if (s.args[i] == "-z") z = true;
				else if (s.args[i] == "-n" && i + 1 < s.args.size()) n = atoi(s.args[++i].c_str());
				else if (s.args[i] == "-l" && i + 1 < s.args.size()) {
					std::string v = s.args[++i];
					l_ok = level.size() < 16 ? v == level : v.size() <= level.size() && level.compare(0, v.size(), v) == 0;
				} else violation("launch.seatd-args", "seatd is started with argument '%s'", s.args[i].c_str());
			}
			if (!z) violation("launch.seatd-args", "seatd is started without -z");
			if (!l_ok) violation("launch.seatd-args", "seatd is not started with log level %s", level.c_str());
			if (n < 0 || !s.fds.count(n) || s.fds[n].first == O_RDONLY || s.fds[n].second.find("pipe") != 0)
				violation("launch.seatd-args", "seatd is not started with a pipe to announce readiness on");
			for (auto &f : s.fds)
				if (f.first > 2 && f.first != n && !(user_fd && f.first == 7)) violation("launch.seatd-fd", "seatd inherits descriptor %d (%s)", f.first, f.second.second.c_str());
			st("check.seatd-start");
		}
		if (c.there) {
			if (!ann || ann > c.time) violation("launch.early", "the command was started before seatd was ready");
			if (fatal && !after) violation("launch.unsafe", "the command was started although %s failed", f_name.c_str());
			if (seatd_bad) violation("launch.unsafe", "the command was started without a seatd (mode %d)", smode);
			for (int i = 0; i < 3; i++) {
				if (c.u[i] != uid) violation("launch.privilege", "the command runs with user ids %d,%d,%d instead of %d", c.u[0], c.u[1], c.u[2], uid);
				if (c.g[i] != gid) violation("launch.privilege", "the command runs with group ids %d,%d,%d instead of %d", c.g[0], c.g[1], c.g[2], gid);
			}
			if (!c.sock || !c.issock) violation("launch.socket", "no socket when the command starts");
			if (c.smode != 0700 || c.su != uid || c.sg != gid) violation("launch.socket", "the socket has mode %o and owner %d:%d when the command starts", c.smode, c.su, c.sg);
			std::string want = std::string("SEATD_SOCK=") + launch_sock;
			int seen = 0, home = 0;
			for (auto &e : c.env) {
				if (e.rfind("SEATD_SOCK=", 0) == 0) { seen++; if (e != want) violation("launch.env", "the command has %s", e.c_str()); }
				if (e == "HOME=/nowhere") home++;
			}
			if (seen != 1) violation("launch.env", "the command has %d SEATD_SOCK", seen);
			if (!home) violation("launch.env", "the command lost its environment");
			if (c.args != cmd) violation("launch.args", "the command got other arguments");
			for (auto &f : c.fds)
				if (f.first > 2 && !(user_fd && f.first == 7)) violation("launch.fd", "the command inherits descriptor %d (%s)", f.first, f.second.second.c_str());
			if (user_fd && !c.fds.count(7)) violation("launch.fd", "the command does not inherit the caller's descriptor");
			if (state && smode == 0 && !after && (state == 'Z' || state == '?' || state == 'X')) violation("launch.seatd-gone", "seatd was gone before the command ended");
			st("check.command");
			if (uid != 0) st("check.privileges-dropped");
			if (!after) {
				int w = cmode == 1 ? 128 + cstatus : cstatus;
				if (rc != w) violation("launch.status", "exit status %d instead of %d", rc, w);
				st(cmode == 1 ? "check.signal-status" : "check.exit-status");
			} else if (rc == 0) violation("launch.status", "exit status 0 although waiting failed");
		} else {
			if (!seatd_bad && !fatal && cmd_ok && smode != 3) violation("launch.not-run", "the command was not run, exit status %d", rc);
			if (rc == 0) violation("launch.status", "exit status 0 although the command was not run");
			if (!se.st_size) violation("launch.message", "the command was not run, without a message");
			st("check.not-run");
		}
		if (reaped.count(s.pid) && smode == 0 && s.there && ann && !(WIFSIGNALED(reaped[s.pid]) && WTERMSIG(reaped[s.pid]) == SIGTERM)) 
			violation("launch.seatd-end", "seatd ended with status %x", reaped[s.pid]);
	}
	if (sh->fired) st(("fault." + f_name).c_str());
	states.insert((uint64_t)(smode * 1000 + (int)kind * 100 + cmode * 10 + (uid != 0)) * 64 + (f_name.empty() ? 0 : (uint64_t)(f_name[0] * 3 + f_name[2] + f_err) % 64));
	cases_run++;
	// process numbers differ from run to run
	uint64_t h = 0xcbf29ce484222325ull;
	hash_add(h, trace_ring[0].data(), trace_ring[0].size());
	cases_seen.insert(h);
	cases_nontrivial++;
	if (idx < 4) for (auto &x : trace_ring) sample += x + "; ";
}

int main(int argc, char **argv) {
	setup(argc, argv, "launch_sim");
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	umask(022);
	sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	const char *bo = getenv("VERIF_OUT");
	if (!bo) broken("VERIF_OUT is not set");
	// the stand-ins must be reachable for other users
	std::string b = run.scratch + "/bin";
	mkdir(b.c_str(), 0755);
	for (const char *n : {"seatd", "cmd"}) {
		std::string c = std::string("cp ") + bo + "/launch_stub " + b + "/" + n + " && chmod 755 " + b + "/" + n;
		if (system(c.c_str())) broken("copying the stand-ins failed");
	}
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		run_case(i);
	}
	unlink((b + "/seatd").c_str());
	unlink((b + "/cmd").c_str());
	rmdir(b.c_str());
	dump_stats();
	fflush(stdout);
	_exit(0);
}
