// Harness of libseat_open_seat's choice of a backend, of the noop backend and
// of logging.  Built twice: with scripted seatd, logind and builtin backends,
// and (-DREAL) with the real seatd and builtin backends, whose connect() and
// fork() are observed.
#include "io.hpp"
extern "C" {
#include "backend.h"
#include "libseat.h"
#include "log.h"
#include "protocol.h"
}
using namespace vh;

// ---------------------------------------------------------------- logging
static enum libseat_log_level level;
struct Rec { int level; std::string text; };
static std::vector<Rec> recs;
static int handler_kind; // 0 default (stderr), 1 recording, 2 recording and changing errno
static bool tty;
static struct timespec clock_start, clock_now;
static void h_rec(enum libseat_log_level l, const char *fmt, va_list ap) {
	char b[5000];
	vsnprintf(b, sizeof b, fmt, ap);
	if (l > level) violation("log.level", "a message of level %d reaches the handler at level %d: %s", l, level, b);
	if (handler_kind == 0) violation("log.handler", "a handler that was replaced is called");
	recs.push_back({(int)l, b});
	st("log.messages");
	if (handler_kind == 2) errno = 4242;
}
static void h_other(enum libseat_log_level, const char *, va_list) { violation("log.handler", "a handler that was replaced is called"); }
extern "C" {
int sim_clock_gettime(clockid_t, struct timespec *ts) {
	clock_now.tv_nsec += rng.below(1000);
	while (clock_now.tv_nsec >= 1000000000) clock_now.tv_nsec -= 1000000000, clock_now.tv_sec++;
	*ts = clock_now;
	return 0;
}
int sim_isatty(int) { return tty; }
}
static void set_handler(int k) {
	if (rng.pct(30)) libseat_set_log_handler(h_other);
	handler_kind = k;
	libseat_set_log_handler(k ? h_rec : nullptr);
}
static void set_level(int l) {
	level = (enum libseat_log_level)l;
	libseat_set_log_level(level);
}
// what the default handler wrote
static FILE *err_file;
static std::string err_text() {
	fflush(stderr);
	long n = ftell(err_file);
	(void)n;
	int fd = fileno(err_file);
	off_t e = lseek(fd, 0, SEEK_END);
	std::string s((size_t)e, 0);
	if (e && pread(fd, &s[0], (size_t)e, 0) != e) broken("pread");
	if (ftruncate(fd, 0)) broken("ftruncate");
	lseek(fd, 0, SEEK_SET);
	return s;
}

// ---------------------------------------------------------------- scripted backends
struct Attempt { std::string what; };
static std::vector<std::string> attempts;
static const struct libseat_seat_listener *want_listener;
static void *want_data;
enum { W_SEATD, W_LOGIND, W_BUILTIN, NW };
static const char *wname[] = {"seatd", "logind", "builtin"};
static bool works[NW];
static int fail_errno[NW];
struct FakeSeat { struct libseat base; int which; };
static FakeSeat *last_fake[NW];
extern "C" {
extern const struct seat_impl noop_impl;
}
struct Called { std::string fn; int which; long a; const void *p; };
static std::vector<Called> called;
static int ret_value, fd_value;
template <int W> struct Fake {
	static int which(struct libseat *b) {
		if ((FakeSeat *)b != last_fake[W]) violation("select.wrong-backend", "a call reaches backend %s with another's seat", wname[W]);
		return W;
	}
	static struct libseat *open_seat(const struct libseat_seat_listener *l, void *d);
	static int disable_seat(struct libseat *b) { called.push_back({"disable_seat", which(b), 0, nullptr}); return ret_value; }
	static int close_seat(struct libseat *b) {
		called.push_back({"close_seat", which(b), 0, nullptr});
		delete last_fake[W];
		last_fake[W] = nullptr;
		return ret_value;
	}
	static const char *seat_name(struct libseat *b) { called.push_back({"seat_name", which(b), 0, nullptr}); return wname[W]; }
	static int open_device(struct libseat *b, const char *p, int *fd) {
		called.push_back({"open_device", which(b), 0, p});
		*fd = fd_value;
		return ret_value;
	}
	static int close_device(struct libseat *b, int id) { called.push_back({"close_device", which(b), id, nullptr}); return ret_value; }
	static int switch_session(struct libseat *b, int s) { called.push_back({"switch_session", which(b), s, nullptr}); return ret_value; }
	static int get_fd(struct libseat *b) { called.push_back({"get_fd", which(b), 0, nullptr}); return ret_value; }
	static int dispatch(struct libseat *b, int t) { called.push_back({"dispatch", which(b), t, nullptr}); return ret_value; }
};
#define IMPL(W) {Fake<W>::open_seat, Fake<W>::disable_seat, Fake<W>::close_seat, Fake<W>::seat_name, Fake<W>::open_device, \
		Fake<W>::close_device, Fake<W>::switch_session, Fake<W>::get_fd, Fake<W>::dispatch}
extern "C" {
extern const struct seat_impl logind_impl;
const struct seat_impl logind_impl = IMPL(W_LOGIND);
#ifndef REAL
extern const struct seat_impl seatd_impl, builtin_impl;
const struct seat_impl seatd_impl = IMPL(W_SEATD);
const struct seat_impl builtin_impl = IMPL(W_BUILTIN);
static const struct seat_impl *impl_of[NW] = {&seatd_impl, &logind_impl, &builtin_impl};
#else
static const struct seat_impl *impl_of[NW] = {nullptr, &logind_impl, nullptr};
#endif
}
template <int W> struct libseat *Fake<W>::open_seat(const struct libseat_seat_listener *l, void *d) {
	attempts.push_back(wname[W]);
	tr("attempt %s", wname[W]);
	if (l != want_listener || d != want_data) violation("select.listener", "backend %s is opened with another listener or other user data", wname[W]);
	if (!works[W]) { errno = fail_errno[W]; return nullptr; }
	last_fake[W] = new FakeSeat;
	last_fake[W]->base.impl = impl_of[W];
	last_fake[W]->which = W;
	return &last_fake[W]->base;
}

// ---------------------------------------------------------------- listeners
static int enables, disables;
static struct libseat *cur;
static bool in_enable;
static void (*in_enable_do)();
static void on_enable(struct libseat *s, void *d) {
	if (s != cur && cur) violation("noop.seat", "the enable callback gets another seat");
	if (d != want_data) violation("noop.userdata", "the enable callback gets other user data");
	enables++;
	in_enable = true;
	cur = s;
	if (in_enable_do) in_enable_do();
	in_enable = false;
}
static void on_disable(struct libseat *, void *) { disables++; }
static struct libseat_seat_listener L_ok = {on_enable, on_disable}, L_noen = {nullptr, on_disable}, L_nodis = {on_enable, nullptr}, L_none = {nullptr, nullptr};

static const char *NAMES_[] = {"seatd", "logind", "builtin", "noop", "", "Seatd", "seatd ", " seatd", "seat", "seatdx", "noop2", "none", "embedded", "noo",
			      "logind,seatd", "built", "\xff", "0"};
static void check_clean(const char *when) {
	if (!io::owned.empty()) violation("select.fd-leak", "descriptor %d is left %s", io::owned.begin()->first, when);
	if (!io::allocs.empty()) violation("select.memory-leak", "%zu bytes are left %s", io::allocs.begin()->second, when);
}
static void note_state(const std::string &k) {
	uint64_t h = 0xcbf29ce484222325ull;
	hash_add(h, k.data(), k.size());
	static uint64_t last;
	states.insert(h);
	transitions.insert(h ^ (last * 31));
	last = h;
}

// ---------------------------------------------------------------- noop
static std::string dir;
static std::vector<std::pair<int, int>> devs; // id, fd
static int poll_mode;                         // what poll does: 0 timeout, EINTR, EAGAIN, other errno
static int last_timeout, polls;
static bool first_dispatch;
static int my_poll(struct pollfd *p, nfds_t n, int timeout) {
	polls++;
	last_timeout = timeout;
	if (first_dispatch && timeout != 0) violation("noop.waits", "the first dispatch waits (timeout %d)", timeout);
	// real readiness: it must never say there is something to read
	for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
	if (poll_mode) { errno = poll_mode; return -1; }
	int r = poll(p, n, 0);
	if (r > 0) violation("noop.fd-ready", "the noop seat's descriptor is ready");
	return 0;
}
static std::string paths[8];
static void noop_open() {
	int k = (int)rng.below(8);
	int fd = -77;
	size_t before = io::owned.size();
	st("noop.open-device");
	errno = 0;
	int r = libseat_open_device(cur, paths[k].c_str(), &fd);
	int e = errno;
	tr("open_device %d = %d (fd %d) %s", k, r, fd, r == -1 ? strerror(e) : "");
	bool ok = k < 4;
	if (r == -1) {
		if (ok && !io::injected) violation("noop.open-failed", "opening %s fails: %s", paths[k].c_str(), strerror(e));
		if (e == 0) violation("noop.errno", "libseat_open_device fails without errno");
		if (io::owned.size() != before) violation("noop.fd-leak", "a failed open leaves a descriptor");
		return;
	}
	if (!ok) violation("noop.open-link", "opening %s works although it should not", paths[k].c_str());
	if (r < 0) violation("noop.result", "libseat_open_device returns %d", r);
	if (!io::owned.count(fd)) violation("noop.wrong-fd", "libseat_open_device gives descriptor %d, which it did not open", fd);
	if (io::owned.size() != before + 1) violation("noop.fd-leak", "libseat_open_device opens more than one descriptor");
	struct stat a, b;
	if (fstat(fd, &a) || stat(paths[k].c_str(), &b) || a.st_ino != b.st_ino) violation("noop.wrong-fd", "the descriptor is not %s", paths[k].c_str());
	for (auto &d : devs) if (d.first == r) violation("noop.id", "device id %d is handed out twice", r);
	int fl = fcntl(fd, F_GETFL);
	if ((fl & O_ACCMODE) != O_RDWR || !(fl & O_NONBLOCK)) violation("noop.flags", "opened with flags %o", fl);
	if (!(fcntl(fd, F_GETFD) & FD_CLOEXEC)) violation("noop.flags", "opened without close-on-exec");
	st("check.noop-open");
	devs.push_back({r, fd});
}
static void noop_close() {
	if (devs.empty()) return;
	size_t k = rng.below((uint32_t)devs.size());
	auto d = devs[k];
	devs.erase(devs.begin() + (long)k);
	bool first = rng.pct(30); // the application may close its descriptor before or after
	if (first) { close(d.second); io::disown(d.second); }
	if (libseat_close_device(cur, d.first) != 0) violation("noop.close", "libseat_close_device fails");
	if (!first) {
		if (!io::owned.count(d.second)) violation("noop.close", "libseat_close_device closes the application's descriptor");
		close(d.second);
		io::disown(d.second);
	}
	st("check.noop-close");
}
static void noop_misc() {
	switch (rng.below(in_enable ? 5 : 4)) {
	case 4: {
		// from within the callback: the seat has been enabled
		static int depth;
		if (depth || enables != 1) break;
		int pm = poll_mode;
		bool fd = first_dispatch;
		poll_mode = 0;
		first_dispatch = false;
		depth++;
		if (libseat_dispatch(cur, 0) != 0) violation("noop.result", "a dispatch from within the enable callback fails");
		depth--;
		poll_mode = pm;
		first_dispatch = fd;
		if (enables != 1) violation("noop.enable", "enabled again by a dispatch from within the enable callback");
		polls = 0;
		st("check.noop-nested");
		break;
	}
	case 0: if (libseat_disable_seat(cur) != 0) violation("noop.disable", "libseat_disable_seat fails"); break;
	case 1: if (strcmp(libseat_seat_name(cur), "seat0")) violation("noop.name", "the seat's name is %s", libseat_seat_name(cur)); break;
	case 2: {
		int f = libseat_get_fd(cur);
		if (!io::owned.count(f)) violation("noop.fd", "libseat_get_fd returns %d", f);
		if (!(fcntl(f, F_GETFD) & FD_CLOEXEC)) violation("noop.flags", "programs the application executes inherit the seat's descriptor");
		struct pollfd p = {f, POLLIN, 0};
		if (poll(&p, 1, 0) != 0) violation("noop.fd-ready", "the noop seat's descriptor is ready");
		break;
	}
	default: {
		int s = rng.range(-2, 12);
		errno = 0;
		if (libseat_switch_session(cur, s) != -1) violation("noop.switch", "switching to %d works", s);
		if (errno == 0) violation("noop.errno", "libseat_switch_session fails without errno");
		st("check.noop-switch");
	}
	}
}
static void noop_some() {
	int n = (int)rng.below(4);
	while (n-- > 0) {
		int k = (int)rng.below(3);
		if (k == 0) noop_open();
		else if (k == 1) noop_close();
		else noop_misc();
	}
}
static void noop_case() {
	setenv("LIBSEAT_BACKEND", "noop", 1);
	io::hk.poll = my_poll;
	bool faults = rng.pct(25);
	if (faults && rng.pct(40)) io::alloc_countdown = (int)rng.below(3);
	int fp = faults ? rng.range(50, 400) : 0;
	io::hk.open = [](const char *p, int fl) -> int {
		int must = O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK;
		if ((fl & must) != must) violation("noop.flags", "opened with flags %o", fl);
		if (fl & (O_CREAT | O_TRUNC | O_APPEND)) violation("noop.flags", "opened with flags %o", fl);
		return open(p, fl);
	};
	io::hk.fail = [fp](const char *w, int) -> int {
		if (strcmp(w, "poll") == 0) return 0;
		return fp && rng.permille(fp) ? (rng.pct(50) ? ENFILE : EACCES) : 0;
	};
	attempts.clear();
	enables = disables = 0;
	cur = nullptr;
	devs.clear();
	want_listener = &L_ok;
	want_data = (void *)(uintptr_t)rng.next();
	errno = 0;
	struct libseat *s = libseat_open_seat(&L_ok, want_data);
	int e = errno;
	if (!s) {
		if (!io::injected) violation("noop.open-failed", "the noop backend does not open: %s", strerror(e));
		if (e == 0) violation("noop.errno", "libseat_open_seat fails without errno");
		check_clean("after a failed libseat_open_seat");
		st("check.noop-open-failed");
		return;
	}
	if (enables && 0) return;
	cur = s;
	if (enables) violation("noop.early", "the seat is enabled before the first dispatch");
	if (rng.pct(50)) noop_some();
	in_enable_do = rng.pct(50) ? noop_some : nullptr;
	int nd = (int)rng.below(5);
	bool did = false;
	for (int i = 0; i < nd; i++) {
		int t = rng.pct(40) ? -1 : rng.pct(50) ? 0 : (int)rng.below(5000);
		static const int pm[] = {0, 0, 0, EINTR, EAGAIN, ENOMEM};
		poll_mode = pm[rng.below(6)];
		first_dispatch = !did;
		polls = 0;
		errno = 0;
		int r = libseat_dispatch(s, t);
		int e = errno;
		tr("dispatch %d = %d, enables %d", t, r, enables);
		if (enables != 1) violation("noop.enable", "%d enable callbacks after dispatch %d", enables, i + 1);
		if (did && polls && last_timeout != t) violation("noop.timeout", "dispatch(%d) polls with timeout %d", t, last_timeout);
		if (did && !polls && t != 0) violation("noop.no-wait", "dispatch(%d) does not wait", t);
		if (polls && poll_mode == ENOMEM) {
			if (r != -1 || e == 0) violation("noop.result", "dispatch returns %d after a failed poll", r);
		} else if (r < 0 || (did && r != 0)) violation("noop.result", "dispatch returns %d", r);
		st(did ? "check.noop-later-dispatch" : "check.noop-first-dispatch");
		did = true;
		first_dispatch = false;
		if (rng.pct(60)) noop_some();
	}
	in_enable_do = nullptr;
	if (disables) violation("noop.disable", "the noop backend calls disable_seat");
	if (!did && enables) violation("noop.early", "the seat is enabled before the first dispatch");
	if (libseat_close_seat(s) != 0) violation("noop.close", "libseat_close_seat fails");
	for (auto &d : devs) {
		if (!io::owned.count(d.second)) violation("noop.close", "libseat_close_seat closes a device of the application");
		io::disown(d.second);
		close(d.second);
	}
	check_clean("after libseat_close_seat");
	st("check.noop-closed");
	note_state("noop" + std::to_string(nd) + (did ? "d" : "") + std::to_string(std::min<size_t>(devs.size(), 3)) + std::to_string(poll_mode));
}

// ---------------------------------------------------------------- logging alone
static void log_case() {
	recs.clear();
	err_text();
	int n = rng.range(1, 8);
	std::string key = "log";
	for (int i = 0; i < n; i++) {
		if (rng.pct(50)) set_level(rng.range(0, 3));
		if (rng.pct(50)) set_handler((int)rng.below(3));
		int l = rng.range(1, 3);
		size_t before = recs.size();
		clock_now.tv_sec += (time_t)rng.below(rng.pct(20) ? 300000 : 3);
		clock_now.tv_nsec = (long)rng.below(1000000000);
		if (rng.pct(10)) { log_init(); st("log.init-again"); } // every libseat_open_seat does
		int num = (int)rng.next();
		std::string str;
		int sl = rng.pct(10) ? rng.range(300, 3000) : rng.range(0, 30);
		for (int k = 0; k < sl; k++) str += (char)rng.range(33, 126);
		int e0 = rng.range(0, 133);
		int form = (int)rng.below(3);
		errno = e0;
		char want[4000];
		if (form == 0) {
			_logf((enum libseat_log_level)l, "%s|%d", str.c_str(), num);
			snprintf(want, sizeof want, "%s|%d", str.c_str(), num);
		} else if (form == 1) {
			if (l == 1) log_errorf("%d: %s%c", num, str.c_str(), 'x');
			else if (l == 2) log_infof("%d: %s%c", num, str.c_str(), 'x');
			else log_debugf("%d: %s%c", num, str.c_str(), 'x');
			snprintf(want, sizeof want, "%d: %s%c", num, str.c_str(), 'x');
		} else {
			if (l == 1) log_error(str.c_str());
			else if (l == 2) log_info(str.c_str());
			else log_debug(str.c_str());
			snprintf(want, sizeof want, "%s", str.c_str());
		}
		int e1 = errno;
		tr("log level %d at %d handler %d form %d length %d", l, level, handler_kind, form, sl);
		if (e1 != e0) violation("log.errno", "logging changes errno from %d to %d", e0, e1);
		bool shown = l <= level;
		std::string err = err_text();
		if (handler_kind == 0) {
			if (recs.size() != before) violation("log.handler", "a reset handler is called");
			if (!shown && !err.empty()) violation("log.level", "a message of level %d is written at level %d: %s", l, level, err.c_str());
			if (shown) {
				size_t p = err.find(want);
				if (p == std::string::npos) violation("log.text", "written: %s; expected text: %s", err.c_str(), want);
				if (err.find('\n') != err.size() - 1) violation("log.line", "not one line: %s", err.c_str());
				int hh = -1, mm = -1, ss = -1, ms = -1;
				if (sscanf(err.c_str(), "%d:%d:%d.%d", &hh, &mm, &ss, &ms) != 4) violation("log.time", "no time stamp: %s", err.c_str());
				// the clock moves less than 10 us while a message is written
				long long ns = (clock_now.tv_sec - clock_start.tv_sec) * 1000000000ll + clock_now.tv_nsec - clock_start.tv_nsec;
				long long got = ((hh * 60ll + mm) * 60 + ss) * 1000 + ms;
				if (got > ns / 1000000 || got < (ns - 20000) / 1000000 || mm > 59 || ss > 59 || ms > 999 || mm < 0 || ss < 0 || ms < 0)
					violation("log.time", "time stamp %d:%d:%d.%d %lld ns after the start", hh, mm, ss, ms, ns);
				static const char *hd[] = {"", "ERROR", "INFO", "DEBUG"};
				bool esc = err.find('\x1b') != std::string::npos;
				if (esc != tty) violation("log.color", "%s: %s", tty ? "no colour on a terminal" : "colour without a terminal", err.c_str());
				if (tty && err.size() >= 5 && err.substr(err.size() - 5) != "\x1b[0m\n") violation("log.color", "colour is not reset: %s", err.c_str());
				if (!tty && err.find(hd[l]) == std::string::npos) violation("log.header", "no %s: %s", hd[l], err.c_str());
				st("check.log-stderr");
			}
		} else {
			if (!err.empty()) violation("log.handler", "written to stderr with a handler set: %s", err.c_str());
			if (recs.size() != before + shown) violation("log.level", "a message of level %d at level %d calls the handler %zu times", l, level, recs.size() - before);
			if (shown) {
				auto &r = recs.back();
				size_t wl = strlen(want);
				if (r.level != l) violation("log.level", "a message of level %d is delivered with level %d", l, r.level);
				if (r.text.size() < wl || r.text.substr(r.text.size() - wl) != want) violation("log.text", "delivered: %s; expected text: %s", r.text.c_str(), want);
				st("check.log-handler");
			} else st("check.log-filtered");
		}
		key += std::to_string(l) + std::to_string(level) + std::to_string(handler_kind) + std::to_string(form);
		note_state(key.substr(key.size() - 4));
	}
}

// ---------------------------------------------------------------- selection
static std::string env_value;
static bool env_set;
static void pick_env() {
	env_set = rng.pct(70);
	env_value = NAMES_[rng.below(sizeof NAMES_ / sizeof *NAMES_)];
	if (rng.pct(40)) env_value = NAMES_[rng.below(4)];
	if (rng.pct(5)) env_value = std::string((size_t)rng.range(1, 4000), 'n');
	if (env_set) setenv("LIBSEAT_BACKEND", env_value.c_str(), 1);
	else unsetenv("LIBSEAT_BACKEND");
	tr("LIBSEAT_BACKEND %s%s", env_set ? "= " : "unset", env_set ? env_value.substr(0, 40).c_str() : "");
}
static int env_which() { // -1 none of the three
	for (int i = 0; i < NW; i++)
		if (env_value == wname[i]) return i;
	return -1;
}
static bool bad_listener() {
	int k = (int)rng.below(30);
	if (k > 3) return false;
	const struct libseat_seat_listener *l[] = {nullptr, &L_noen, &L_nodis, &L_none};
	errno = 0;
	uint64_t c0 = io::calls;
	struct libseat *s = libseat_open_seat(l[k], want_data);
	int e = errno;
	tr("incomplete listener %d", k);
	if (s) violation("select.bad-listener", "libseat_open_seat works with an incomplete listener (%d)", k);
	if (e != EINVAL) violation("select.bad-listener", "an incomplete listener gives %s instead of EINVAL", strerror(e));
	if (!attempts.empty() || io::calls != c0) violation("select.bad-listener", "something is tried (%s) with an incomplete listener", attempts.empty() ? "a system call" : attempts[0].c_str());
	check_clean("after an incomplete listener");
	st("check.bad-listener");
	note_state("bad" + std::to_string(k) + (env_set ? env_value.substr(0, 9) : "-"));
	return true;
}
static std::string join(const std::vector<std::string> &v) {
	std::string s;
	for (auto &x : v) s += (s.empty() ? "" : " ") + x;
	return s.empty() ? "nothing" : s;
}
static void pass_through(struct libseat *s, int w) {
	int n = rng.range(1, 12);
	for (int i = 0; i < n; i++) {
		called.clear();
		ret_value = rng.pct(30) ? -1 : (int)rng.below(1000);
		fd_value = (int)rng.below(1000);
		int arg = (int)rng.next();
		int k = (int)rng.below(7);
		const char *fn = nullptr;
		int r = 0;
		char path[] = "/dev/x";
		int e0 = rng.range(1, 100);
		errno = e0;
		if (k == 0) fn = "disable_seat", r = libseat_disable_seat(s), arg = 0;
		else if (k == 1) {
			fn = "seat_name", arg = 0, r = ret_value;
			if (strcmp(libseat_seat_name(s), wname[w])) violation("select.result", "libseat_seat_name returns another name");
		} else if (k == 2) {
			int fd = -5;
			fn = "open_device", arg = 0, r = libseat_open_device(s, path, &fd);
			if (fd != fd_value || called.empty() || called[0].p != path) violation("select.result", "libseat_open_device passes other arguments on");
		} else if (k == 3) fn = "close_device", r = libseat_close_device(s, arg);
		else if (k == 4) fn = "get_fd", r = libseat_get_fd(s), arg = 0;
		else if (k == 5) fn = "dispatch", r = libseat_dispatch(s, arg);
		else fn = "switch_session", r = libseat_switch_session(s, arg);
		if (called.size() != 1 || called[0].fn != fn || called[0].which != w || called[0].a != arg)
			violation("select.result", "libseat_%s reaches %s with %ld", fn, called.empty() ? "nothing" : called[0].fn.c_str(), called.empty() ? 0 : called[0].a);
		if (r != ret_value) violation("select.result", "libseat_%s returns %d instead of %d", fn, r, ret_value);
		if (errno != e0) violation("select.result", "libseat_%s changes errno", fn);
		st("check.pass-through");
	}
	called.clear();
	ret_value = rng.pct(20) ? -1 : 0;
	if (libseat_close_seat(s) != ret_value) violation("select.result", "libseat_close_seat returns another value");
	if (called.size() != 1 || called[0].fn != "close_seat") violation("select.result", "libseat_close_seat reaches something else");
}
static void select_case() {
	attempts.clear();
	want_listener = &L_ok;
	want_data = (void *)(uintptr_t)rng.next();
	cur = nullptr;
	enables = 0;
	pick_env();
	static const int es[] = {ENOENT, ECONNREFUSED, EPERM, EINVAL, ENOMEM, EIO, ENOSYS, EBUSY};
	for (int i = 0; i < NW; i++) {
		works[i] = rng.pct(50);
		fail_errno[i] = es[rng.below(8)];
	}
	if (bad_listener()) return;
	bool fail_noop = rng.pct(10);
	io::hk.fail = [fail_noop](const char *w, int) -> int { return fail_noop && !strcmp(w, "socketpair") ? ENFILE : 0; };
	errno = 0;
	struct libseat *s = libseat_open_seat(&L_ok, want_data);
	int e = errno;
	std::vector<std::string> want;
	int want_which = -1; // 3: noop
	int want_errno = 0;
	if (env_set) {
		int w = env_which();
		if (w >= 0) {
			want.push_back(wname[w]);
			if (works[w]) want_which = w;
			else want_errno = fail_errno[w];
		} else if (env_value == "noop") {
			if (!fail_noop) want_which = 3;
			else want_errno = ENFILE;
		} else want_errno = EINVAL;
	} else {
		for (int i = 0; i < NW && want_which < 0; i++) {
			want.push_back(wname[i]);
			if (works[i]) want_which = i;
		}
		if (want_which < 0) want_errno = ENOSYS;
	}
	if (attempts != want)
		violation("select.order", "LIBSEAT_BACKEND %s, working %d%d%d: tried %s instead of %s", env_set ? env_value.substr(0, 40).c_str() : "unset", works[0], works[1],
			  works[2], join(attempts).c_str(), join(want).c_str());
	if (want_which < 0) {
		if (s) violation("select.opened", "a seat is opened although %s", env_set ? "the named backend does not work" : "no backend works");
		if (e != want_errno) violation("select.errno", "errno is %s instead of %s", strerror(e), strerror(want_errno));
		check_clean("after a failed libseat_open_seat");
		st("check.select-failed");
	} else {
		if (!s) violation("select.refused", "no seat although %s works", want_which < 3 ? wname[want_which] : "noop");
		if (want_which < 3) {
			if (s != &last_fake[want_which]->base) violation("select.wrong-backend", "another backend's seat is returned");
			check_clean("after opening a seat");
			pass_through(s, want_which);
		} else {
			if (s->impl != &noop_impl) violation("select.wrong-backend", "another backend's seat is returned for noop");
			cur = s;
			libseat_dispatch(s, 0);
			if (enables != 1) violation("noop.enable", "%d enable callbacks after one dispatch", enables);
			libseat_close_seat(s);
		}
		check_clean("after libseat_close_seat");
		st("check.select-opened");
	}
	note_state("sel" + (env_set ? env_value.substr(0, 9) : "-") + std::to_string(works[0]) + std::to_string(works[1]) + std::to_string(works[2]) + std::to_string(fail_noop));
}

#ifdef REAL
// ---------------------------------------------------------------- the real seatd and builtin backends
enum { C_ABSENT, C_REFUSED, C_HANGUP, C_ERROR, C_GARBAGE, C_WORKS };
static int mode_seatd, mode_builtin; // for builtin: C_ABSENT fork fails, C_REFUSED socketpair fails
static std::string want_path;
static std::vector<int> peers; // model server ends
static int fork_dup[2] = {-1, -1}, pair_fd[2];
static bool forked;
static void answer(int peer, int mode, const char *name) {
	if (mode == C_HANGUP) { close(peer); return; }
	std::string m;
	if (mode == C_ERROR) {
		struct proto_header h = {SERVER_ERROR, sizeof(struct proto_server_error)};
		struct proto_server_error er = {EBUSY};
		m.assign((char *)&h, sizeof h);
		m.append((char *)&er, sizeof er);
	} else if (mode == C_GARBAGE) {
		struct proto_header h = {SERVER_SESSION_SWITCHED, 0};
		m.assign((char *)&h, sizeof h);
	} else {
		uint16_t n = (uint16_t)(strlen(name) + 1);
		struct proto_header h = {SERVER_SEAT_OPENED, (uint16_t)(sizeof(struct proto_server_seat_opened) + n)};
		struct proto_server_seat_opened o = {n};
		m.assign((char *)&h, sizeof h);
		m.append((char *)&o, sizeof o);
		m.append(name, n);
	}
	if (send(peer, m.data(), m.size(), MSG_NOSIGNAL) != (ssize_t)m.size()) broken("send");
	peers.push_back(peer);
}
extern "C" {
pid_t sim_fork(void) {
	attempts.push_back("builtin");
	tr("fork");
	if (forked) violation("select.order", "two processes are started");
	if (mode_builtin == C_ABSENT) { errno = EAGAIN; return -1; }
	forked = true;
	int n = 0;
	for (auto &o : io::owned)
		if (n < 2) pair_fd[n++] = o.first;
	if (n != 2 || io::owned.size() != 2) violation("select.fd-leak", "%zu descriptors are open when the embedded server starts", io::owned.size());
	// the child is not run: its end is whichever one the parent closes
	fork_dup[0] = dup(pair_fd[0]);
	fork_dup[1] = dup(pair_fd[1]);
	return 12345;
}
void sim_exit(int) { broken("exit() in the parent"); }
void sim__exit(int) { broken("_exit() in the parent"); }
}
static int real_poll(struct pollfd *p, nfds_t n, int timeout) {
	int r = poll(p, n, timeout < 0 || timeout > 2000 ? 2000 : timeout);
	if (r == 0 && timeout < 0) violation("hang", "libseat waits although nothing is to come");
	return r;
}
static void real_case() {
	attempts.clear();
	peers.clear();
	forked = false;
	want_listener = &L_ok;
	want_data = (void *)(uintptr_t)rng.next();
	cur = nullptr;
	enables = 0;
	pick_env();
	static const int es[] = {ENOENT, ENODATA, EPERM, EINVAL, ENOMEM};
	works[W_LOGIND] = rng.pct(30);
	fail_errno[W_LOGIND] = es[rng.below(5)];
	mode_seatd = rng.pct(40) ? C_WORKS : (int)rng.below(C_WORKS);
	mode_builtin = rng.pct(40) ? C_WORKS : (int)rng.below(C_WORKS);
	if (rng.pct(60)) {
		want_path = rng.pct(50) ? "/run/seatd.sock" : "/tmp/x" + std::to_string(rng.below(100));
		if (rng.pct(10)) want_path = "/" + std::string((size_t)rng.range(90, 106), 's');
		setenv("SEATD_SOCK", want_path.c_str(), 1);
	} else {
		want_path = "/nonexistent/default";
		unsetenv("SEATD_SOCK");
	}
	io::call_limit = 5000;
	io::hk.poll = real_poll;
	io::hk.connect = [](int fd, const struct sockaddr *a, socklen_t l) -> int {
		attempts.push_back("seatd");
		const struct sockaddr_un *u = (const struct sockaddr_un *)a;
		std::string p(u->sun_path, l - offsetof(struct sockaddr_un, sun_path));
		p = p.c_str();
		tr("connect %s", p.c_str());
		if (u->sun_family != AF_UNIX || p != want_path) violation("select.path", "connects to \"%s\" instead of \"%s\"", p.c_str(), want_path.c_str());
		if (mode_seatd == C_ABSENT) { errno = ENOENT; return -1; }
		if (mode_seatd == C_REFUSED) { errno = ECONNREFUSED; return -1; }
		int sp[2];
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sp)) broken("socketpair");
		if (dup3(sp[0], fd, O_CLOEXEC) == -1) broken("dup3");
		close(sp[0]);
		answer(sp[1], mode_seatd, "seat-of-seatd");
		return 0;
	};
	io::hk.fail = [](const char *w, int) -> int {
		if (!strcmp(w, "socketpair")) {
			attempts.push_back("builtin-pair");
			if (mode_builtin == C_REFUSED) return EMFILE;
		}
		return 0;
	};
	io::hk.closing = [](int fd) {
		if (fork_dup[0] == -1) return;
		for (int k = 0; k < 2; k++)
			if (pair_fd[k] == fd) {
				close(fork_dup[!k]);
				int mine = fork_dup[k];
				fork_dup[0] = fork_dup[1] = -1;
				answer(mine, mode_builtin, "seat-of-builtin");
			}
	};
	if (bad_listener()) return;
	errno = 0;
	struct libseat *s = libseat_open_seat(&L_ok, want_data);
	int e = errno;
	std::vector<std::string> want;
	const char *name = nullptr;
	int want_errno = -1;
	auto real_builtin = [&] {
		want.push_back("builtin-pair");
		if (mode_builtin == C_REFUSED) { want_errno = EMFILE; return; }
		want.push_back("builtin");
		if (mode_builtin == C_WORKS) name = "seat-of-builtin";
		else if (mode_builtin == C_ABSENT) want_errno = EAGAIN;
		else if (mode_builtin == C_ERROR) want_errno = EBUSY;
		else if (mode_builtin == C_GARBAGE) want_errno = EBADMSG;
	};
	auto real_seatd = [&] {
		want.push_back("seatd");
		if (mode_seatd == C_WORKS) name = "seat-of-seatd";
		else if (mode_seatd == C_ABSENT) want_errno = ENOENT;
		else if (mode_seatd == C_REFUSED) want_errno = ECONNREFUSED;
		else if (mode_seatd == C_ERROR) want_errno = EBUSY;
		else if (mode_seatd == C_GARBAGE) want_errno = EBADMSG;
	};
	if (env_set) {
		if (env_value == "seatd") real_seatd();
		else if (env_value == "builtin") real_builtin();
		else if (env_value == "logind") {
			want.push_back("logind");
			if (works[W_LOGIND]) name = "logind";
			else want_errno = fail_errno[W_LOGIND];
		} else if (env_value == "noop") {
			want.push_back("builtin-pair"); // noop makes a pair too
			if (mode_builtin != C_REFUSED) name = "seat0";
			else want_errno = EMFILE;
		} else want_errno = EINVAL;
	} else {
		real_seatd();
		if (!name) {
			want.push_back("logind");
			if (works[W_LOGIND]) name = "logind";
		}
		if (!name) real_builtin();
		want_errno = ENOSYS;
	}
	auto strip = [](std::vector<std::string> v) {
		std::vector<std::string> o;
		for (auto &x : v) if (x != "builtin-pair") o.push_back(x);
		return o;
	};
	if (strip(attempts) != strip(want))
		violation("select.order", "LIBSEAT_BACKEND %s: tried %s instead of %s", env_set ? env_value.substr(0, 40).c_str() : "unset", join(strip(attempts)).c_str(),
			  join(strip(want)).c_str());
	if (!name) {
		if (s) violation("select.opened", "a seat is opened although nothing wanted works");
		if (e == 0 || (want_errno >= 0 && e != want_errno)) violation("select.errno", "errno is %d (%s) instead of %s", e, strerror(e), strerror(want_errno));
		if (fork_dup[0] != -1) violation("select.fd-leak", "the embedded server's end stays open");
		check_clean("after a failed libseat_open_seat");
		st("check.real-failed");
	} else {
		if (!s) violation("select.refused", "no seat although %s works: %s", name, strerror(e));
		if (strcmp(libseat_seat_name(s), name)) violation("select.wrong-backend", "the seat is \"%s\" instead of \"%s\"", libseat_seat_name(s), name);
		size_t most = !strcmp(name, "logind") ? 0 : !strcmp(name, "seat0") ? 2 : 1;
		if (io::owned.size() > most) violation("select.fd-leak", "%zu descriptors are open after opening seat %s", io::owned.size(), name);
		for (auto &p : peers) { shutdown(p, SHUT_RDWR); }
		ret_value = 0;
		libseat_close_seat(s);
		check_clean("after libseat_close_seat");
		st("check.real-opened");
	}
	for (int p : peers) close(p);
	note_state("real" + (env_set ? env_value.substr(0, 9) : "-") + std::to_string(works[1]) + std::to_string(mode_seatd) + std::to_string(mode_builtin));
}
#endif

int main(int argc, char **argv) {
	setup(argc, argv, "backend_sim");
	dir = run.scratch.empty() ? "/tmp" : run.scratch;
	auto mk = [&](int k, const char *n) { paths[k] = dir + "/" + n; unlink(paths[k].c_str()); };
	mk(0, "file");
	mk(1, "file2");
	mk(2, "fifo");
	mk(3, "file3");
	mk(4, "link");
	mk(5, "missing");
	paths[6] = dir; // a directory
	mk(7, "dangling");
	for (int k : {0, 1, 3}) close(open(paths[k].c_str(), O_CREAT | O_RDWR, 0600));
	if (mkfifo(paths[2].c_str(), 0600) || symlink(paths[0].c_str(), paths[4].c_str()) || symlink("/nowhere", paths[7].c_str())) broken("scratch files");
	int own_err = dup(2);
	(void)own_err;
	err_file = tmpfile();
	if (!err_file) broken("tmpfile");
	// the default handler writes to the C stream stderr
	FILE *real_err = stderr;
	stderr = err_file;
	setvbuf(err_file, nullptr, _IONBF, 0);
	(void)real_err;
	rng.seed(run.seed, 0xbacc + run.case_from);
	tty = rng.pct(50);
	clock_start.tv_sec = clock_now.tv_sec = (time_t)rng.below(100000);
	clock_now.tv_nsec = (long)rng.below(1000000000);
	uint64_t keep = rng.next();
	(void)keep;
	clock_start = clock_now;
	log_init();
	clock_start = clock_now; // what log_init was told
	double t0 = now_s();
	set_handler(1);
	for (uint64_t c = 0; c < run.case_count; c++) {
		run.case_cur = run.case_from + c;
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		rng.seed(run.seed, run.case_cur);
		trace_reset();
		io::reset();
		recs.clear();
		set_level(rng.range(0, 3));
		set_handler(rng.pct(50) ? 2 : 1);
		cpu_limit(10);
#ifdef REAL
		real_case();
#else
		if (run.profile == "log") log_case();
		else if (run.profile == "noop") noop_case();
		else select_case();
#endif
		for (int i = 0; i < NW; i++)
			if (last_fake[i]) { delete last_fake[i]; last_fake[i] = nullptr; }
		memcheck_report();
		cases_run++;
		cases_nontrivial++;
		cases_seen.insert(case_hash);
		if (sample.empty())
			for (auto &l : trace_ring) sample += l + "; ";
	}
	dump_stats();
	return 0;
}
