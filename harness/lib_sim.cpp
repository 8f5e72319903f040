// libseat's seatd backend against a scripted model server.  The real library
// runs in this thread; the server takes its steps inside the library's system
// calls.
#include "io.hpp"
extern "C" {
#include "libseat.h"
}

using namespace io;

enum {
	C_OPEN_SEAT = 1, C_CLOSE_SEAT, C_OPEN_DEVICE, C_CLOSE_DEVICE, C_DISABLE_SEAT, C_SWITCH, C_PING,
	S_SEAT_OPENED = 0x8001, S_SEAT_CLOSED, S_DEVICE_OPENED, S_DEVICE_CLOSED, S_DISABLE, S_ENABLE, S_PONG, S_SWITCHED,
	S_SEAT_DISABLED, S_ERROR = 0xffff
};
static const char *callname[] = {"none", "open_seat", "close_seat", "open_device", "close_device", "disable_seat", "switch_session",
				 "dispatch", "misc"};
enum { K_NONE, K_OPEN_SEAT, K_CLOSE_SEAT, K_OPEN_DEVICE, K_CLOSE_DEVICE, K_DISABLE, K_SWITCH, K_DISPATCH, K_MISC };

struct Profile {
	bool rogue = false, faults = false;
	int pc_event = 35;      // events around replies
	int pc_spont = 20;      // spontaneous events
	int pc_frag = 40;
	int pc_short = 20;
	int pc_eintr = 3;
	int pc_cbcalls = 60;
	int eventloop = 30;     // percent of cases driven only by readability
	int steps_lo = 6, steps_hi = 40;
};
static Profile P;

// ---------------- model server ----------------
static int sfd = -1;       // server end
static int lfd = -1;       // library end
static std::string inb, outb;
struct OutFd { size_t off; std::vector<int> fds; };
static std::deque<OutFd> outfds;
static bool srv_closed, srv_silent;
static bool seat_closed_sent;
static bool rogue_late;               // behaves until the seat is closed
static std::vector<int> sent_events;  // S_ENABLE/S_DISABLE, in order queued
static size_t events_received;        // events whose bytes reached the library
static size_t events_called;          // callbacks made
static int pings_unanswered;          // pings received by the server whose pong has not reached the library
static uint64_t pings, pongs_received;
static std::string rxb;               // parse of bytes that reached the library
static int rogue_class;               // the class used in this case (0: none yet)
static bool rogue_done;               // a rogue thing has been put on the wire
static bool rogue_must_fail;          // the call being answered has to fail
static bool dead;                     // the library saw the end of the connection or may have
static bool lost;                     // a call failed for a broken connection: later calls must fail
static bool fault_seen;
static std::string seatname, seatname_expect;
static bool name_any;

// the call in progress
struct Call {
	int kind = 0;
	std::string path;
	int arg = 0;
	bool answered = false;
	bool sent_req = false;
	bool ok = false;
	int code = 0, id = 0;
	uint64_t ino = 0;
	bool must_fail = false;
	bool uncertain = false;
	bool lost_before = false;
};
static std::vector<Call *> stack;
static int cb_in_dispatch;
static unsigned d_bytes, d_eof, d_eintr, d_expired, d_polls; // what happened within the current dispatch
static bool in_cb;
static int script_left;
static std::set<int> app_fds;
static struct libseat *seat;
static bool close_on_done;

static uint64_t ino_of(int fd) {
	struct stat s;
	if (fstat(fd, &s)) return 0;
	return s.st_ino;
}
static void note(const char *ev) {
	uint64_t h = 0xcbf29ce484222325ull;
	uint32_t x[8] = {(uint32_t)(stack.empty() ? 0 : stack.back()->kind), (uint32_t)stack.size(),
			 (uint32_t)std::min<size_t>(events_received - events_called, 3), (uint32_t)pings_unanswered,
			 (uint32_t)std::min<size_t>(outb.size(), 300) / 12, (uint32_t)rogue_class | (srv_closed ? 64 : 0) | (lost ? 128 : 0),
			 (uint32_t)in_cb, (uint32_t)std::min<size_t>(rxb.size(), 8)};
	hash_add(h, x, sizeof x);
	static uint64_t last;
	states.insert(h);
	uint64_t t = last;
	hash_add(t, ev, strlen(ev));
	hash_add(t, &h, sizeof h);
	transitions.insert(t);
	last = h;
}

static void srv_close() {
	if (sfd < 0) return;
	tr("server: closes the connection (%zu bytes unsent)", outb.size());
	for (auto &o : outfds)
		for (int f : o.fds) close(f);
	outfds.clear();
	outb.clear();
	close(sfd);
	sfd = -1;
	srv_closed = true;
}
static void put16(std::string &s, unsigned v) { uint16_t x = (uint16_t)v; s.append((char *)&x, 2); }
static void put32(std::string &s, int v) { s.append((char *)&v, 4); }
static void msg(int op, const std::string &body = "", std::vector<int> f = {}, int size = -1) {
	if (sfd < 0) { for (int x : f) close(x); return; }
	if (!f.empty()) outfds.push_back({outb.size(), f});
	put16(outb, op);
	put16(outb, size < 0 ? (unsigned)body.size() : (unsigned)size);
	outb += body;
}
static void event() {
	if (sfd < 0 || srv_silent || seat_closed_sent) return;
	int op;
	if (rng.pct(75) && !sent_events.empty()) op = sent_events.back() == S_ENABLE ? S_DISABLE : S_ENABLE;
	else op = rng.pct(50) ? S_ENABLE : S_DISABLE;
	sent_events.push_back(op);
	st("srv.event");
	tr("server: queues event %s (#%zu)", op == S_ENABLE ? "ENABLE" : "DISABLE", sent_events.size());
	msg(op);
}
static void maybe_events(int pc) {
	while (rng.pct(pc) && sent_events.size() < 60) event();
}
static void write_some(bool all = false) {
	if (sfd < 0 || outb.empty()) return;
	size_t n = outb.size();
	if (!all && rng.pct(P.pc_frag)) n = 1 + rng.below((uint32_t)std::min<size_t>(n, rng.pct(60) ? 6 : 300));
	// a message boundary in the middle is interesting too
	std::vector<int> f;
	while (!outfds.empty() && (outfds.front().off < n || (rng.pct(15) && outfds.front().off < outb.size()))) {
		for (int x : outfds.front().fds) f.push_back(x);
		outfds.pop_front();
		if (f.size() > 200) break;
	}
	char cb[CMSG_SPACE(sizeof(int) * 253)];
	struct iovec iov = {(void *)outb.data(), n};
	struct msghdr m = {};
	m.msg_iov = &iov;
	m.msg_iovlen = 1;
	if (!f.empty()) {
		if (f.size() > 250) broken("too many fds");
		m.msg_control = cb;
		m.msg_controllen = CMSG_SPACE(sizeof(int) * f.size());
		memset(cb, 0, sizeof cb);
		struct cmsghdr *h = CMSG_FIRSTHDR(&m);
		h->cmsg_level = SOL_SOCKET;
		h->cmsg_type = SCM_RIGHTS;
		h->cmsg_len = CMSG_LEN(sizeof(int) * f.size());
		memcpy(CMSG_DATA(h), f.data(), sizeof(int) * f.size());
	}
	ssize_t r = sendmsg(sfd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
	if (r < 0 && errno == EAGAIN) {
		if (!f.empty()) outfds.push_front({0, f});
		return;
	}
	if (r < 0) {
		for (int x : f) close(x);
		tr("server: send failed: %s", strerror(errno));
		srv_close();
		return;
	}
	for (int x : f) close(x);
	outb.erase(0, (size_t)r);
	for (auto &o : outfds) o.off = o.off > (size_t)r ? o.off - (size_t)r : 0;
	tr("server: writes %zd bytes, %zu fds", r, f.size());
	st("srv.fragment");
}

static int newdev() {
	int fd = memfd_create("dev", MFD_CLOEXEC);
	if (fd < 0) broken("memfd: %s", strerror(errno));
	return fd;
}
static const int codes[] = {EPERM, ENOENT, EBADF, EINVAL, EBUSY, EMFILE, ENODEV, EACCES, ENOMEM, EIO, EAGAIN, EINTR, ENOTCONN, ENOSYS};

static int want_op(int kind) {
	switch (kind) {
	case K_OPEN_SEAT: return C_OPEN_SEAT;
	case K_CLOSE_SEAT: return C_CLOSE_SEAT;
	case K_OPEN_DEVICE: return C_OPEN_DEVICE;
	case K_CLOSE_DEVICE: return C_CLOSE_DEVICE;
	case K_DISABLE: return C_DISABLE_SEAT;
	case K_SWITCH: return C_SWITCH;
	}
	return -1;
}
static const int reply_op[] = {0, S_SEAT_OPENED, S_SEAT_CLOSED, S_DEVICE_OPENED, S_DEVICE_CLOSED, S_SEAT_DISABLED, S_SWITCHED};

static std::string name_body(const std::string &n, int len = -1) {
	std::string b;
	put16(b, len < 0 ? (unsigned)n.size() : (unsigned)len);
	return b + n;
}

enum { R_CLOSE = 1, R_HALF, R_WRONGOP, R_BIGGER, R_SMALLER, R_NOFD, R_NAME_LONG, R_NAME_UNTERM, R_NAME_LEN, R_OVERSIZE, R_GARBAGE, R_ERRSIZE,
       R_UNSOLICITED, R_EXTRAFD, R_RESET, R_MANYFD, R_FDFLOOD, R_CLOSE_AFTER, R_N };
static const char *rogue_name[] = {"", "close", "close-mid-message", "wrong-opcode", "bigger", "smaller", "no-fd", "name-too-long",
				   "name-unterminated", "name-length", "oversize", "garbage", "error-size", "unsolicited", "extra-fd", "reset",
				   "many-fds", "fd-flood", "close-after-reply"};

// puts a misbehaving answer on the wire instead of the proper one
static void rogue_answer(Call *c) {
	int k = rogue_class;
	rogue_done = true;
	c->answered = true;
	c->must_fail = true;
	tr("server: misbehaves: %s", rogue_name[k]);
	st((std::string("rogue.") + rogue_name[k]).c_str());
	std::string body;
	std::vector<int> f;
	int op = reply_op[c->kind];
	if (c->kind == K_OPEN_DEVICE) {
		put32(body, 7);
		f.push_back(newdev());
	} else if (c->kind == K_OPEN_SEAT) body = name_body(std::string("seat0", 6));
	switch (k) {
	case R_CLOSE: for (int x : f) close(x); if (rng.pct(50)) write_some(true); srv_close(); return;
	case R_RESET: {
		for (int x : f) close(x);
		// closing with unread input makes the peer see a reset
		srv_close();
		return;
	}
	case R_HALF: {
		std::string save = outb;
		msg(op, body, f);
		size_t full = outb.size() - save.size();
		size_t keep = save.size() + 1 + rng.below((uint32_t)full - 1);
		outb.resize(keep);
		write_some(true);
		srv_close();
		return;
	}
	case R_WRONGOP: {
		int o;
		do {
			static const int ops[] = {S_SEAT_OPENED, S_SEAT_CLOSED, S_DEVICE_OPENED, S_DEVICE_CLOSED, S_SWITCHED, S_SEAT_DISABLED, 1, 3, 7, 0,
						  0x800a, 0xfffe, 0x8000};
			o = ops[rng.below(13)];
		} while (o == op);
		msg(o, body, f);
		if (o == 0) { msg(0, ""); srv_silent = true; }
		return;
	}
	case R_BIGGER: msg(op, body + std::string(1 + rng.below(40), 'x'), f); return;
	case R_SMALLER:
		if (body.empty()) { msg(op, "x", f); return; }
		// less than the fixed part (a name length that does not fit is another class)
		if (c->kind == K_OPEN_SEAT) body = rng.pct(50) ? "" : "\x06";
		else body = body.substr(0, rng.below((uint32_t)body.size()));
		msg(op, body, f);
		return;
	case R_NOFD:
		for (int x : f) close(x);
		msg(op, body);
		if (c->kind != K_OPEN_DEVICE) c->must_fail = false, c->ok = true, c->uncertain = true;
		return;
	case R_NAME_LONG: {
		if (c->kind != K_OPEN_SEAT) break;
		int n = rng.range(65, 240);
		std::string nm((size_t)n, 'n');
		if (rng.pct(50)) nm[nm.size() - 1] = 0;
		msg(op, name_body(nm));
		return;
	}
	case R_NAME_UNTERM: {
		if (c->kind != K_OPEN_SEAT) break;
		std::string nm(64, 'n');
		if (rng.pct(50)) { nm = std::string("se\0at0", 7); } // a terminator in the middle
		msg(op, name_body(nm));
		return;
	}
	case R_NAME_LEN: {
		if (c->kind != K_OPEN_SEAT) break;
		int n = rng.pct(50) ? 5 : rng.range(7, 65535);
		msg(op, name_body(std::string("seat0", 6), n));
		return;
	}
	case R_OVERSIZE: {
		int sz = rng.range(257, 65535);
		msg(op, body + std::string(rng.below(600), 'y'), f, sz);
		srv_silent = true;
		return;
	}
	case R_GARBAGE: {
		int n = rng.range(1, 400);
		std::string g;
		for (int i = 0; i < n; i++) g += (char)rng.below(256);
		for (int x : f) close(x);
		outb += g;
		c->must_fail = false;
		c->uncertain = true;
		srv_silent = true;
		return;
	}
	case R_ERRSIZE: for (int x : f) close(x); msg(S_ERROR, std::string(rng.pct(50) ? rng.below(4) : 5 + rng.below(30), 'e')); return;
	case R_EXTRAFD:
	case R_MANYFD: {
		int n = k == R_EXTRAFD ? 1 : rng.range(60, 70);
		for (int i = 0; i < n; i++) f.push_back(newdev());
		msg(op, body, f);
		c->must_fail = false;
		c->uncertain = true;
		return;
	}
	case R_FDFLOOD: {
		int n = rng.range(3, 8);
		for (int i = 0; i < n; i++) {
			std::vector<int> g;
			int q = rng.range(1, 30);
			for (int j = 0; j < q; j++) g.push_back(newdev());
			msg(rng.pct(50) ? S_PONG : S_ENABLE, "", g);
			write_some(true);
		}
		msg(op, body, f);
		c->must_fail = false;
		c->uncertain = true;
		return;
	}
	case R_CLOSE_AFTER:
		msg(op, body, f);
		write_some(true);
		srv_close();
		c->must_fail = false;
		c->uncertain = true;
		return;
	default: break;
	}
	// not applicable here: close instead
	for (int x : f) close(x);
	srv_close();
}

static void answer(Call *c) {
	if (P.rogue && !rogue_done && (rogue_late ? c->kind == K_CLOSE_SEAT && rng.pct(80) : rng.pct(c->kind == K_OPEN_SEAT ? 12 : 20))) {
		maybe_events(P.pc_event / 2);
		rogue_answer(c);
		return;
	}
	maybe_events(P.pc_event);
	c->answered = true;
	bool err = rng.pct(c->kind == K_OPEN_SEAT ? 6 : c->kind == K_CLOSE_SEAT ? 15 : 30);
	if (err) {
		c->ok = false;
		c->code = rng.pct(85) ? codes[rng.below(14)] : rng.range(1, 132);
		std::string b;
		put32(b, c->code);
		msg(S_ERROR, b);
		tr("server: answers %s with error %d", callname[c->kind], c->code);
	} else {
		c->ok = true;
		std::string body;
		std::vector<int> f;
		if (c->kind == K_OPEN_DEVICE) {
			c->id = rng.pct(90) ? rng.range(1, 200) : (int)(rng.next() & 0x7fffffff) | 1;
			int fd = newdev();
			c->ino = ino_of(fd);
			put32(body, c->id);
			f.push_back(fd);
		} else if (c->kind == K_OPEN_SEAT) {
			switch (rng.below(6)) {
			case 0: seatname = "seat0"; seatname_expect = "seat0"; break; // old servers: no terminator
			case 1: seatname = ""; seatname_expect = ""; break;
			case 2: seatname = std::string(63, 'q') + std::string(1, 0); seatname_expect = std::string(63, 'q'); break;
			case 3: { int n = rng.range(1, 62); seatname_expect = std::string((size_t)n, 'k'); seatname = seatname_expect + std::string(1, 0); break; }
			default: seatname = std::string("seat0", 6); seatname_expect = "seat0";
			}
			body = name_body(seatname);
		}
		msg(reply_op[c->kind], body, f);
		tr("server: answers %s with success (%d)", callname[c->kind], c->id);
	}
	if (c->kind == K_CLOSE_SEAT) seat_closed_sent = true; // refused or not, nothing more is to come
	if (c->kind != K_CLOSE_SEAT && !(c->kind == K_OPEN_SEAT && err)) maybe_events(P.pc_event);
	st("srv.reply");
}

static void handle_in() {
	for (;;) {
		if (inb.size() < 4) return;
		uint16_t op, sz;
		memcpy(&op, inb.data(), 2);
		memcpy(&sz, inb.data() + 2, 2);
		if (4u + sz > 256) violation("call.oversize", "the library sent a message of %u bytes, which no server accepts", 4u + sz);
		if (inb.size() < 4u + sz) return;
		std::string body = inb.substr(4, sz);
		inb.erase(0, 4u + sz);
		if (srv_silent) continue;
		if (op == C_PING) {
			if (sz) violation("call.request", "ping with a body");
			pings++;
			st("srv.ping");
			tr("server: got ping");
			pings_unanswered++;
			if (pings_unanswered > 1)
				violation("wake.many-pings", "a wake-up request was sent while the answer to another is outstanding");
			if (seat_closed_sent) continue;
			maybe_events(P.pc_event / 3);
			msg(S_PONG);
			continue;
		}
		if (rogue_done) { // the server is not in step with the library any more
			if (!stack.empty() && op == want_op(stack.back()->kind) && !stack.back()->sent_req) {
				stack.back()->sent_req = true;
				stack.back()->uncertain = true;
				answer(stack.back());
				if (sfd < 0) return;
			}
			continue;
		}
		Call *c = nullptr;
		for (auto x : stack)
			if (x->kind != K_DISPATCH && x->kind != K_MISC && !x->sent_req) c = x;
		if (!c || stack.empty() || c != stack.back())
			violation("call.request", "the library sent request %d which no call in progress makes", op);
		if (op != want_op(c->kind)) violation("call.request", "%s sent request %d", callname[c->kind], op);
		c->sent_req = true;
		bool good = true;
		if (op == C_OPEN_DEVICE) {
			uint16_t l = 0;
			if (sz < 2) good = false;
			else memcpy(&l, body.data(), 2);
			good = good && l == sz - 2 && body.substr(2) == c->path + std::string(1, 0);
		} else if (op == C_CLOSE_DEVICE || op == C_SWITCH) {
			int v = 0;
			good = sz == 4;
			if (good) memcpy(&v, body.data(), 4);
			good = good && v == c->arg;
		} else good = sz == 0;
		if (!good) violation("call.request", "%s(\"%.300s\", %d) sent a wrong request", callname[c->kind], c->path.c_str(), c->arg);
		if (seat_closed_sent) { srv_close(); c->uncertain = true; return; }
		st("srv.request");
		tr("server: got %s", callname[c->kind]);
		answer(c);
		if (sfd < 0) return;
	}
}
static bool srv_read() {
	if (sfd < 0) return false;
	if (lfd < 0) return false; // the library has given up the connection
	char b[300];
	size_t want = rng.pct(20) ? 1 + rng.below(8) : sizeof b;
	if (P.rogue && rogue_class == R_RESET && !rogue_done && !stack.empty() && stack.back()->kind != K_DISPATCH && stack.back()->kind != K_OPEN_SEAT && rng.pct(25)) {
		struct pollfd p = {sfd, POLLIN, 0};
		if (poll(&p, 1, 0) == 1) { // leave it unread: reset
			rogue_done = true;
			if (stack.back()->answered) stack.back()->uncertain = true;
			else stack.back()->must_fail = true;
			st("rogue.reset");
			srv_close();
			return true;
		}
	}
	ssize_t r = recv(sfd, b, want, MSG_DONTWAIT);
	if (r <= 0) return false;
	inb.append(b, (size_t)r);
	handle_in();
	return true;
}
static bool readable() {
	if (lfd < 0) return false;
	struct pollfd p = {lfd, POLLIN, 0};
	return poll(&p, 1, 0) == 1;
}
// one random step of the world, at any system call
static void world(const char *what) {
	if (sfd < 0) return;
	(void)what;
	if (rng.pct(50)) srv_read();
	if (rng.pct(50)) write_some();
	if (script_left > 0 && rng.pct(P.pc_spont) && sent_events.size() < 60) {
		script_left--;
		event();
	}
	if (P.rogue && !rogue_done && rng.permille(15)) {
		int k = rogue_class;
		if (k == R_UNSOLICITED) {
			static const int ops[] = {S_DEVICE_CLOSED, S_SWITCHED, S_SEAT_DISABLED, S_ERROR, S_DEVICE_OPENED, 0x1234, 0};
			rogue_done = true;
			tr("server: misbehaves: %s", rogue_name[k]);
			st("rogue.unsolicited");
			std::string b;
			if (rng.pct(50)) put32(b, rng.range(1, 9));
			std::vector<int> f;
			if (rng.pct(30)) f.push_back(newdev());
			msg(ops[rng.below(7)], b, f);
			for (auto c : stack) c->uncertain = true;
		} else if (k == R_CLOSE || k == R_HALF || k == R_RESET) {
			rogue_done = true;
			st("rogue.dies");
			if (rng.pct(50)) write_some(true);
			for (auto c : stack) c->uncertain = true;
			srv_close();
		} else if (k == R_GARBAGE) {
			rogue_done = true;
			st("rogue.garbage");
			int n = rng.range(1, 300);
			for (int i = 0; i < n; i++) outb += (char)rng.below(256);
			for (auto c : stack) c->uncertain = true;
			srv_silent = true;
		}
	}
	note(what);
}

// ---------------- library-side observation ----------------
static void on_recvd(int fd, const char *d, size_t n, int) {
	if (fd != lfd) return;
	if (n == 0) { dead = true; d_eof++; return; }
	d_bytes++;
	rxb.append(d, n);
	if (rogue_done && rogue_class != R_EXTRAFD) { // framing is not reliable any more
		while (rxb.size() > 4096) rxb.erase(0, 1024);
	}
	while (rxb.size() >= 4) {
		uint16_t op, sz;
		memcpy(&op, rxb.data(), 2);
		memcpy(&sz, rxb.data() + 2, 2);
		if (rxb.size() < 4u + sz) break;
		if (op == S_ENABLE || op == S_DISABLE) events_received++;
		if (op == S_PONG) {
			pongs_received++;
			if (pings_unanswered > 0) pings_unanswered--;
		}
		rxb.erase(0, 4u + sz);
	}
	note("recv");
}

static int sim_poll_hook(struct pollfd *p, nfds_t n, int timeout) {
	if (n != 1 || p[0].fd != lfd) {
		if (lost || dead || srv_closed) return poll(p, n, 0);
		violation("call.poll", "poll on something else than the connection");
	}
	Call *top = stack.empty() ? nullptr : stack.back();
	if (!top) violation("call.poll", "poll outside of any call");
	if (lost) { // must not block for ever: the kernel says that the peer is gone
		int r = poll(p, n, 0);
		if (r == 0 && timeout != 0) violation("dead.blocks", "%s waits for a connection that is known to be broken", callname[top->kind]);
		return r;
	}
	if (top->kind == K_DISPATCH) {
		if (cb_in_dispatch && timeout != 0)
			violation("dispatch.blocks", "dispatch may block (timeout %d) after running a callback", timeout);
		if ((top->arg == 0 && timeout != 0) || (top->arg > 0 && (timeout < 0 || timeout > top->arg)))
			violation("dispatch.timeout", "dispatch with timeout %d waits with timeout %d", top->arg, timeout);
	}
	st("lib.poll");
	d_polls++;
	if (rng.pct(P.pc_eintr) && timeout != 0) {
		tr("poll interrupted");
		d_eintr++;
		errno = EINTR;
		return -1;
	}
	int idle = 0;
	for (;;) {
		world("poll");
		int r = poll(p, n, 0);
		if (r != 0) return r;
		if (timeout == 0) return 0;
		bool moved = srv_read();
		if (!outb.empty() && sfd >= 0) { write_some(); moved = true; }
		if (moved) { idle = 0; continue; }
		if (poll(p, n, 0) > 0) continue;
		if (timeout > 0) { tr("poll timed out"); d_expired++; return 0; }
		// the library waits without limit and the server owes nothing
		if (++idle < 3) continue;
		if (rogue_done || fault_seen || srv_silent) {
			if (sfd >= 0) { srv_close(); continue; }
			violation("hang", "%s waits for ever", callname[top->kind]);
		}
		if (top->kind == K_DISPATCH) {
			if (events_received > events_called)
				violation("wake.lost", "dispatch waits without limit with %zu undelivered events", events_received - events_called);
			event();
			write_some(true);
			continue;
		}
		violation("hang", "%s waits for ever (request %s, %s)", callname[top->kind], top->sent_req ? "sent" : "not sent",
			  top->answered ? "answered" : "not answered");
	}
}

// ---------------- the application ----------------
static void app_open_device(), app_close_device(), app_switch(), app_disable();

static void on_event(struct libseat *s, void *data, int op) {
	if (injected_alloc) fault_seen = true;
	(void)data;
	st("app.callback");
	tr("callback %s", op == S_ENABLE ? "enable" : "disable");
	if (stack.empty()) violation("event.context", "callback outside of any library call");
	int k = stack.back()->kind;
	if (in_cb || (k != K_OPEN_SEAT && k != K_DISPATCH && k != K_CLOSE_SEAT))
		violation("event.context", "callback from within libseat_%s", callname[k]);
	if (events_called >= events_received && !rogue_done) violation("event.spurious", "callback for an event that was not received");
	if (!rogue_done && !fault_seen && sent_events[events_called] != op)
		violation("event.order", "event %zu sent by the server was %s but the callback is %s", events_called + 1,
			  sent_events[events_called] == S_ENABLE ? "enable" : "disable", op == S_ENABLE ? "enable" : "disable");
	events_called++;
	if (k == K_DISPATCH) cb_in_dispatch++;
	if (k == K_OPEN_SEAT) { st("app.callback-in-open"); if (!seat) seat = s; }
	if (seat && s != seat) violation("event.context", "callback with a different seat pointer");
	note("cb");
	in_cb = true;
	if (rng.pct(P.pc_cbcalls)) {
		if (op == S_ENABLE) {
			for (int n = rng.range(0, 2); n > 0; n--) app_open_device();
			if (rng.pct(15)) app_switch();
		} else {
			if (rng.pct(40)) app_close_device();
			app_disable();
		}
	}
	in_cb = false;
}
static void cb_enable(struct libseat *s, void *d) { on_event(s, d, S_ENABLE); }
static void cb_disable(struct libseat *s, void *d) { on_event(s, d, S_DISABLE); }
static const struct libseat_seat_listener listener = {cb_enable, cb_disable};
static int userdata;

static uint64_t sends_before;
static uint64_t sendcount;
static void begin(Call &c) {
	tr("call %s(\"%.40s\"%s, %d)%s", callname[c.kind], c.path.c_str(), c.path.size() > 40 ? "..." : "", c.arg, in_cb ? " from a callback" : "");
	c.lost_before = lost;
	stack.push_back(&c);
	st((std::string("app.") + callname[c.kind]).c_str());
	errno = 0;
	sends_before = sendcount;
	world("call");
	errno = 0;
}
static bool conn_error(const Call &c) { if (injected_alloc) fault_seen = true; return c.must_fail || c.uncertain || rogue_done || fault_seen || dead || srv_closed || lost; }

// common part of judging a call that made a request; ret: success or not
static void judge(Call &c, bool success, int err) {
	stack.pop_back();
	tr("%s returns %s errno %d", callname[c.kind], success ? "success" : "failure", success ? 0 : err);
	if (lost && !c.lost_before) return; // broken from within a callback
	if (lost) {
		if (success) violation("dead.accepts", "%s succeeded although the connection is broken", callname[c.kind]);
		if (sendcount != sends_before) violation("dead.sends", "%s sent something on a broken connection", callname[c.kind]);
		if (!err) violation("call.errno", "%s failed without setting errno", callname[c.kind]);
		st("check.dead-call");
		return;
	}
	if (!success && err == 0) violation("call.errno", "%s failed without setting errno", callname[c.kind]);
	if (c.must_fail) {
		if (success) violation("rogue.accepted", "%s succeeded on an invalid answer (%s)", callname[c.kind], rogue_name[rogue_class]);
		st("check.rogue-failed");
		if (sendcount != sends_before) lost = true; // else rejected without noticing
		return;
	}
	if (conn_error(c)) {
		if (!success) {
			// a valid refusal may still come through
			bool local = !c.sent_req && err == EINVAL;
			if (!local && !(c.answered && !c.ok && err == c.code) && srv_closed && !fault_seen) lost = true;
		} else if (c.answered && !c.ok && !c.uncertain && rogue_class != R_UNSOLICITED && rogue_class != R_GARBAGE)
			violation("call.result", "%s succeeded but the server refused it", callname[c.kind]);
		return;
	}
	if (!c.answered) violation("call.result", "%s returned %s before the server answered", callname[c.kind], success ? "success" : "failure");
	if (c.ok != success)
		violation("call.result", "%s returned %s (errno %d) but the server said %s (%d)", callname[c.kind], success ? "success" : "failure",
			  err, c.ok ? "success" : "error", c.code);
	if (!success && err != c.code)
		violation("call.errno", "%s failed with errno %d (%s) but the server said %d (%s)", callname[c.kind], err, strerror(err), c.code,
			  strerror(c.code));
	st("check.result");
}

static void wake_check() {
	if (injected_alloc) fault_seen = true;
	// after a top-level call: undelivered events need a wake-up
	if (!seat || in_cb || lost || dead || rogue_done || fault_seen || srv_closed) return;
	if (events_received <= events_called) return;
	st("check.wake");
	if (readable()) return;
	if (rng.pct(40)) return; // let it be, later calls overlap
	// let the server do everything it has to
	for (int i = 0; i < 400 && !readable(); i++) {
		srv_read();
		write_some(true);
	}
	if (!readable())
		violation("wake.lost", "%zu events were read but not delivered and the descriptor does not become readable",
			  events_received - events_called);
}

static std::string pick_path(bool &reject) {
	reject = false;
	int r = rng.range(0, 99);
	if (r < 60) return "/dev/dri/card" + std::to_string(rng.range(0, 9));
	if (r < 65) return "";
	if (r < 80) return std::string((size_t)rng.range(200, 249), 'p');
	if (r < 93) { reject = true; return std::string((size_t)rng.range(250, 260), 'p'); }
	reject = true;
	return std::string((size_t)rng.range(256, 70000), 'p');
}

static void app_open_device() {
	Call c;
	c.kind = K_OPEN_DEVICE;
	bool reject;
	c.path = pick_path(reject);
	int fd = -77;
	size_t own0 = owned.size();
	begin(c);
	int ret = libseat_open_device(seat, c.path.c_str(), &fd);
	int err = errno;
	bool success = ret != -1;
	if (!c.sent_req && !lost && !conn_error(c)) {
		// rejected without asking the server
		stack.pop_back();
		if (success) violation("call.result", "open_device returned %d without asking the server", ret);
		if (!reject) violation("call.rejected", "open_device of a path of %zu bytes was not sent (errno %d)", c.path.size(), err);
		if (err != EINVAL && err != ENAMETOOLONG) violation("call.errno", "over-long path rejected with errno %d", err);
		if (sendcount != sends_before) violation("call.rejected", "a rejected call sent something");
		st("check.rejected");
		wake_check();
		return;
	}
	judge(c, success, err);
	if (success) {
		if (c.uncertain || rogue_done || c.must_fail) {
			if (fd >= 0 && owned.count(fd)) { disown(fd); app_fds.insert(fd); }
		} else {
			if (ret != c.id) violation("call.result", "open_device returned id %d but the server said %d", ret, c.id);
			if (fd < 0 || ino_of(fd) != c.ino) violation("call.result", "open_device returned descriptor %d which is not the device sent", fd);
			if (!owned.count(fd)) violation("call.result", "open_device returned a descriptor that was not received");
			if (app_fds.count(fd)) violation("call.result", "open_device returned the same descriptor twice");
			if (!(fcntl(fd, F_GETFD) & FD_CLOEXEC)) violation("call.cloexec", "open_device returned a descriptor that programs the application executes inherit");
			disown(fd);
			app_fds.insert(fd);
			st("check.device-fd");
		}
	} else if (!conn_error(c) && fd != -77) violation("call.result", "failed open_device changed the descriptor");
	(void)own0;
	wake_check();
}
static void app_simple(int kind, int arg, const std::function<int()> &fn) {
	Call c;
	c.kind = kind;
	c.arg = arg;
	begin(c);
	int ret = fn();
	int err = errno;
	if (arg < 0 && !lost && !conn_error(c)) {
		stack.pop_back();
		if (ret != -1 || err != EINVAL) violation("call.result", "%s(%d) returned %d errno %d", callname[kind], arg, ret, err);
		if (c.sent_req || sendcount != sends_before) violation("call.rejected", "%s(%d) was sent to the server", callname[kind], arg);
		st("check.rejected");
		wake_check();
		return;
	}
	if (ret != 0 && ret != -1) violation("call.result", "%s returned %d", callname[kind], ret);
	judge(c, ret == 0, err);
	wake_check();
}
static void app_close_device() {
	if (!app_fds.empty() && rng.pct(60)) {
		int fd = *app_fds.begin();
		app_fds.erase(fd);
		close(fd);
	}
	int id = rng.pct(10) ? -rng.range(1, 1000) : rng.range(0, 300);
	app_simple(K_CLOSE_DEVICE, id, [&] { return libseat_close_device(seat, id); });
}
static void app_switch() {
	int n = rng.pct(12) ? (rng.pct(50) ? -1 : -rng.range(1, 100000)) : rng.range(0, 12);
	app_simple(K_SWITCH, n, [&] { return libseat_switch_session(seat, n); });
}
static void app_disable() {
	app_simple(K_DISABLE, 0, [&] { return libseat_disable_seat(seat); });
}
static uint64_t pongs_last;
static int app_dispatch(int timeout) {
	Call c;
	c.kind = K_DISPATCH;
	c.arg = timeout;
	cb_in_dispatch = 0;
	d_bytes = d_eof = d_eintr = d_expired = d_polls = 0;
	bool was_lost = lost;
	begin(c);
	int ret = libseat_dispatch(seat, timeout);
	int err = errno;
	stack.pop_back();
	if (injected_alloc) fault_seen = true;
	tr("dispatch returns %d", ret);
	if (was_lost) {
		if (ret != -1) violation("dead.accepts", "dispatch returned %d although the connection is broken", ret);
		if (!err) violation("call.errno", "dispatch failed without setting errno");
		return ret;
	}
	if (ret == -1) {
		if (!err) violation("call.errno", "dispatch failed without setting errno");
		if (!(rogue_done || fault_seen || srv_closed || dead || lost)) violation("call.result", "dispatch failed with %s on a healthy connection", strerror(err));
		if (srv_closed || dead) lost = true;
	} else {
		if (ret < 0) violation("call.result", "dispatch returned %d", ret);
		if (cb_in_dispatch && ret <= 0) violation("dispatch.result", "dispatch ran %d callbacks but returned %d", cb_in_dispatch, ret);
		if (!rogue_done && !cb_in_dispatch && ret > 0 && pongs_received == pongs_last)
			violation("dispatch.result", "dispatch processed nothing but returned %d", ret);
		if (!fault_seen && ret == 0 && timeout != 0 && !d_bytes && !d_eintr && !d_expired)
			violation("dispatch.no-wait", "dispatch with timeout %d returned 0 although it neither received anything nor waited", timeout);
		if (!fault_seen && ret == 0 && libseat_get_fd(seat) == -1) violation("dead.unnoticed", "dispatch gave up the connection but returned 0");
		if (!fault_seen && ret == 0 && d_eof) violation("dead.unnoticed", "dispatch reached the end of the connection but returned 0");
		st("check.dispatch");
		if (timeout != 0) st("check.dispatch-wait");
	}
	pongs_last = pongs_received;
	if (ret >= 0) wake_check();
	return ret;
}

// dispatch as long as the descriptor is readable
static void drain_loop() {
	for (int i = 0; i < 2000; i++) {
		srv_read();
		write_some(true);
		if (!readable()) {
			bool idle = true;
			if (sfd >= 0) {
				struct pollfd p = {sfd, POLLIN, 0};
				if (poll(&p, 1, 0) == 1 || !outb.empty()) idle = false;
			}
			if (idle) break;
			continue;
		}
		if (app_dispatch(0) == -1) return;
		script_left = 0;
		if (i > 1500) violation("spin", "the descriptor stays readable although dispatch is called again and again");
	}
	if (lost || dead || rogue_done || fault_seen || srv_closed) return;
	st("check.eventloop");
	if (events_called != sent_events.size())
		violation("wake.lost", "%zu of %zu events were never delivered to an application that dispatches when the descriptor is readable",
			  sent_events.size() - events_called, sent_events.size());
}

static void dead_check() {
	// the server is gone: dispatch with a zero timeout has to say so
	int r = 0;
	for (int i = 0; i < 400; i++) {
		r = app_dispatch(0);
		if (r == -1) break;
	}
	if (r != -1) violation("dead.unnoticed", "the server has closed the connection but dispatch with a zero timeout keeps returning %d", r);
	st("check.dead-dispatch");
}

static void run_case(uint64_t idx) {
	run.case_cur = idx;
	rng.seed(run.seed, idx * 7 + 3);
	trace_reset();
	io::reset();
	P = Profile();
	const std::string &n = run.profile;
	if (rng.pct(60)) { P.pc_event = rng.range(0, 40); P.pc_spont = rng.range(0, 20); }
	if (rng.pct(30)) P.pc_frag = rng.range(0, 90);
	if (n == "C18") { P.pc_event = 55; P.pc_spont = 35; P.eventloop = 60; }
	if (n == "C19") { P.rogue = true; P.faults = rng.pct(25); if (P.faults && rng.pct(50)) P.rogue = false; }
	sfd = lfd = -1;
	inb.clear(); outb.clear(); outfds.clear();
	srv_closed = srv_silent = seat_closed_sent = false;
	sent_events.clear();
	events_received = events_called = 0;
	pings_unanswered = 0;
	pings = pongs_received = pongs_last = 0;
	rxb.clear();
	rogue_class = P.rogue ? rng.range(1, R_N - 1) : 0;
	rogue_late = P.rogue && rng.pct(15);
	rogue_done = dead = lost = fault_seen = false;
	stack.clear();
	in_cb = false;
	cb_in_dispatch = 0;
	app_fds.clear();
	seat = nullptr;
	sendcount = 0;
	script_left = rng.range(0, 20);
	int steps = rng.range(P.steps_lo, P.steps_hi);
	call_limit = 200000;
	int connect_fail = rng.pct(2) ? (rng.pct(50) ? ENOENT : ECONNREFUSED) : 0;
	std::string sockpath = "/nonexistent/s" + std::to_string(rng.range(1, 999));
	setenv("SEATD_SOCK", sockpath.c_str(), 1);
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	hk.socket = [](int d, int t, int) {
		if (d != AF_UNIX || (t & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) != SOCK_STREAM) broken("unexpected socket");
		int sv[2];
		if (socketpair(AF_UNIX, t, 0, sv)) broken("socketpair: %s", strerror(errno));
		lfd = sv[0];
		sfd = sv[1];
		return sv[0];
	};
	hk.connect = [&](int, const struct sockaddr *a, socklen_t l) {
		const struct sockaddr_un *u = (const struct sockaddr_un *)a;
		std::string p(u->sun_path, l - offsetof(struct sockaddr_un, sun_path));
		p = p.c_str();
		if (p != sockpath) violation("call.connect", "connected to \"%s\" instead of \"%s\"", p.c_str(), sockpath.c_str());
		if (connect_fail) { errno = connect_fail; return -1; }
		return 0;
	};
	hk.poll = sim_poll_hook;
	hk.recvd = on_recvd;
	hk.sent = [](int, const char *, size_t) { sendcount++; };
	hk.before = [](const char *w, int fd) { if (fd == lfd || fd == -1) world(w); };
	hk.closing = [](int fd) { if (fd == lfd) lfd = -1; };
	hk.read_limit = [](int, size_t w) -> size_t { return w > 1 && rng.pct(P.pc_short) ? 1 + rng.below((uint32_t)w) : w; };
	hk.write_limit = [](int, size_t w) -> size_t { return w > 1 && rng.pct(15) ? 1 + rng.below((uint32_t)w) : w; };
	int fperm = P.faults ? rng.range(3, 30) : 0;
	hk.fail = [fperm](const char *w, int) -> int {
		if ((!strcmp(w, "recvmsg") || !strcmp(w, "sendmsg")) && rng.pct(P.pc_eintr)) return EINTR;
		if (fperm && rng.permille(fperm)) {
			static const int es[] = {ECONNRESET, ENOMEM, EPIPE, ENOBUFS, EIO, EIO};
			int e = es[rng.below(6)];
			if (!strcmp(w, "poll")) return 0;
			fault_seen = true;
			return e;
		}
		return 0;
	};
	if (P.faults && rng.pct(60)) alloc_fail_permille = rng.range(5, 60);
	tr("case %llu %s rogue %s", (unsigned long long)idx, n.c_str(), rogue_name[rogue_class]);
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_SILENT);
	if (rng.pct(10)) libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
	cpu_limit(20);
	uint64_t alloc0 = injected_alloc;
	{
		Call c;
		c.kind = K_OPEN_SEAT;
		begin(c);
		struct libseat *s = libseat_open_seat(&listener, &userdata);
		int err = errno;
		if (injected_alloc > alloc0) fault_seen = true;
		if (connect_fail) {
			stack.pop_back();
			if (s) violation("call.result", "open_seat succeeded without a connection");
			if (err != connect_fail && !fault_seen) violation("call.errno", "open_seat failed with %d instead of %d", err, connect_fail);
		} else judge(c, s != nullptr, err);
		if (seat && s && s != seat) violation("event.context", "open_seat returned another pointer than the callbacks");
		seat = s;
		if (!s) {
			if (!owned.empty()) violation("leak.fd", "failed open_seat left %zu descriptors open", owned.size());
			if (!allocs.empty()) violation("leak.memory", "failed open_seat left %zu allocations", allocs.size());
			st("check.open-failed");
		} else {
			if (!(c.uncertain || rogue_done || fault_seen) && seatname_expect != libseat_seat_name(s))
				violation("call.result", "seat name is \"%s\" instead of \"%s\"", libseat_seat_name(s), seatname_expect.c_str());
			if (int f = libseat_get_fd(s); f >= 0 && !(fcntl(f, F_GETFD) & FD_CLOEXEC))
				violation("call.cloexec", "programs the application executes inherit the seat's connection");
			st("check.cloexec");
			wake_check();
		}
	}
	if (seat) {
		bool loop = (int)rng.below(100) < P.eventloop;
		for (int i = 0; i < steps; i++) {
			if (injected_alloc > alloc0) fault_seen = true;
			world("between");
			if (!lost && !srv_closed && !rogue_done && !fault_seen && libseat_get_fd(seat) != lfd) violation("call.result", "get_fd does not return the connection");
			if ((srv_closed) && !lost && rng.pct(30)) dead_check();
			int r = rng.range(0, 99);
			if (loop) {
				if (r < 55) { if (readable()) app_dispatch(0); }
				else if (r < 75) app_open_device();
				else if (r < 85) app_close_device();
				else if (r < 92) app_disable();
				else app_switch();
			} else {
				if (r < 25) app_open_device();
				else if (r < 40) app_close_device();
				else if (r < 50) app_switch();
				else if (r < 62) app_disable();
				else if (r < 75) app_dispatch(0);
				else if (r < 85) app_dispatch(-1);
				else if (r < 92) app_dispatch(rng.range(1, 1000));
				else if (r < 96) libseat_seat_name(seat);
				else maybe_events(60);
			}
		}
		if (injected_alloc > alloc0) fault_seen = true;
		if (loop || rng.pct(50)) drain_loop();
		if (srv_closed && !lost) dead_check();
		// close
		Call c;
		c.kind = K_CLOSE_SEAT;
		if (rng.pct(30)) maybe_events(70);
		bool broken_before = lost;
		begin(c);
		int ret = libseat_close_seat(seat);
		int err = errno;
		(void)err;
		stack.pop_back();
		tr("close_seat returns %d", ret);
		seat = nullptr;
		if (injected_alloc > alloc0) fault_seen = true;
		if (ret != 0 && ret != -1) violation("call.result", "close_seat returned %d", ret);
		if (!broken_before && c.must_fail && ret == 0) violation("rogue.accepted", "close_seat succeeded on an invalid answer (%s)", rogue_name[rogue_class]);
		if (broken_before) {
			if (ret != -1) violation("dead.accepts", "close_seat succeeded on a broken connection");
		} else if (!conn_error(c) || (!rogue_done && !fault_seen && seat_closed_sent && c.answered && !dead)) {
			if (ret != 0 && !seat_closed_sent && c.ok) violation("call.result", "close_seat failed (errno %d)", err);
			if (!conn_error(c) && (ret == 0) != c.ok) violation("call.result", "close_seat returned %d (errno %d) but the server said %s (%d)", ret, err, c.ok ? "success" : "error", c.code);
			if (!conn_error(c) && ret == -1 && err == 0) violation("call.errno", "close_seat failed without setting errno");
			if (!conn_error(c)) st(c.ok ? "check.close-ok" : "check.close-refused");
			if (!c.sent_req) violation("call.request", "close_seat did not tell the server");
			if (events_called != sent_events.size())
				violation("event.lost", "%zu events sent before the seat was closed were never delivered", sent_events.size() - events_called);
			st("check.close");
		} else if (c.must_fail && ret == 0) violation("rogue.accepted", "close_seat succeeded on an invalid answer");
		if (!owned.empty()) {
			std::string l;
			for (auto &o : owned) l += " " + std::to_string(o.first);
			violation("leak.fd", "descriptors left open after close_seat:%s", l.c_str());
		}
		if (!allocs.empty()) violation("leak.memory", "%zu allocations left after close_seat", allocs.size());
		st("check.released");
	}
	cpu_limit(0);
	for (int fd : app_fds) close(fd);
	srv_close();
	memcheck_report();
	cases_run++;
	st("lib.pings", pings);
	st("lib.events", sent_events.size());
	if (events_called || pings || rogue_done || fault_seen) {
		if (cases_seen.insert(case_hash).second) cases_nontrivial++;
	}
	if (sample.empty() && events_called > 2 && pings)
		for (size_t i = 0; i < trace_ring.size() && i < 60; i++) sample += trace_ring[i] + "; ";
}

int main(int argc, char **argv) {
	setup(argc, argv, "lib_sim");
	if (!run.verbose) {
		int nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
		dup2(nul, 2);
		close(nul);
	}
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		run_case(i);
	}
	dump_stats();
	fflush(stdout);
	_exit(0);
}
