// Whole-daemon simulation: the real seatd main() runs in this thread; the
// redirected poll() is where the scripted world (clients, consoles, users)
// takes its next steps.
#include "monitor.hpp"

extern "C" int seatd_main(int argc, char **argv);
extern "C" const char *sim_sockpath_get(void) { static std::string s; s = vh::run.scratch + "/s"; return s.c_str(); }

using namespace mon;

struct Profile {
	int vt = -1;           // -1: either, 0: unbound, 1: VT-bound
	int max_clients = 5;
	int steps_lo = 15, steps_hi = 70;
	int hostile = 10;      // percent of clients that misbehave
	int blind = 15;        // percent of clients that ignore state
	int w_connect = 14, w_req = 60, w_flush = 12, w_disc = 5, w_half = 1, w_malformed = 2, w_noise = 1, w_fdpush = 2,
	    w_vt = 14, w_stall = 0, w_sig = 1, w_ack = 14;
	int pc_illegal = 3;
	int pc_frag = 25;      // requests sent in pieces
	int pc_shortread = 8;
	int pc_partial = 4;    // partial sends
	int pc_mid = 3;        // permille of calls with an asynchronous client action
	int pc_eintr = 3;
	bool faults = false;
	bool single = false;   // exactly one fault, at every call in turn
	bool midvt = false;
	int open_weight = 35, close_weight = 18, switch_weight = 14;
	bool many = false;     // run into the device limit
	int rounds = 1;
	int pc_brim = 8;         // stalls that fill the output buffer
};
static Profile P;
static int steps_left;
static int phase;
static int idle_polls;
static bool sigterm_sent;
static size_t base_allocs;
static int base_fds_other;
static bool have_base;
static std::string sock;
static uint64_t syscalls_at_progress;
static bool in_mid;
static int probe_id;
static bool fault_done;
static bool expect_exit_ok;
static std::vector<int> finish_order;

static const char *aliases[] = {"/dev/input/by-path/kbd", "/dev/input/by-path/ptr", "/dev/dri/by-path/gpu", "/tmp/card", "/tmp/kbd",
				"/home/u/dev/dri/card1", "/dev/../dev/input/event3", "/dev//input///event2", "/dev/./dri/card0", "/tmp/c1",
				"dev/input/event1", "./dev/dri/card0", "../../dev/input/event0", "/dev/dri/../input/event1", "/sys/../dev/dri/card2"};
static const char *badpaths[] = {"/etc/shadow", "/dev/mem", "/dev/null", "/dev/tty1", "/dev/input/mouse0", "/dev/drix", "/tmp/event0",
				 "/dev/inputevent0", "/dev/dri2", "/dev/input/eventlink", "/dev/input/event_disk", "/dev/dri/evil",
				 "/dev/dri/mem", "/dev/hidrawlink", "/tmp/loop", "/tmp/dangling", "/tmp/tty", "/dev/dri", "/dev/dri/",
				 "/dev/input/event0/", "/dev/input/event0/..", "/dev/dri/card0/x", "", "/", ".", "..", "event0",
				 "/dev/dri/../mem", "/dev/dri/../../etc/shadow", "/dev/input/event0/../../mem", "/dev/hidraw0/../mem",
				 "/dev/input/event200", "/dev/input/event201", "/dev/dri/card9", "/dev/hidraw9", "/dev/dri/by-path",
				 "/dev/dri/card7", "/dev/snd/pcm0", "/home/u/card0", "/dev/inpu", "/dev/hidra", "/dev/input/even",
				 "/dev/uinput", "/dev/fb0", "/dev/sda", "/dev/hidraw1", "/dev/hidraw0", "/dev/tty0", "/home/u/dev/mem"};
#define NEL(a) (int)(sizeof(a) / sizeof((a)[0]))

static std::string pick_path() {
	int r = rng.range(0, 99);
	if (P.many && r < 80) return "/dev/input/event" + std::to_string(rng.range(0, 139));
	if (r < 30) return "/dev/input/event" + std::to_string(rng.range(0, 3));
	if (r < 52) return "/dev/dri/card" + std::to_string(rng.range(0, 2));
	if (r < 56) return "/dev/dri/renderD128";
	if (r < 64) return "/dev/hidraw" + std::to_string(rng.range(0, 1));
	if (r < 80) return aliases[rng.below(NEL(aliases))];
	if (r < 97) return badpaths[rng.below(NEL(badpaths))];
	// long and odd names
	std::string s;
	int k = rng.range(0, 3);
	int n = rng.range(1, 249);
	if (k == 0) s = "/dev/dri/" + std::string((size_t)n > 240 ? 240 : n, 'a');
	else if (k == 1) {
		while ((int)s.size() + 2 < n) s += "/.";
		s += "/dev/input/event1";
		if (s.size() > 249) s = s.substr(s.size() - 249);
	} else if (k == 2) {
		for (int i = 0; i < n; i++) s += (char)rng.range(1, 255);
	} else {
		s = "/dev/input/event" + std::string(rng.range(1, 5), (char)rng.range(1, 255));
	}
	return s;
}

static void put(Client *c, const void *d, size_t n) { c->outq.append((const char *)d, n); }
static void put_hdr(Client *c, int op, int size) {
	uint16_t h[2] = {(uint16_t)op, (uint16_t)size};
	put(c, h, 4);
}
static void put_req(Client *c, int op, int arg = 0, const std::string &path = "") {
	tr("driver: client %d queues %s %s %d", c->id, opname(op), path.c_str(), arg);
	if (op == C_OPEN_DEVICE) {
		uint16_t l = (uint16_t)(path.size() + 1);
		put_hdr(c, op, 2 + l);
		put(c, &l, 2);
		put(c, path.c_str(), l);
	} else if (op == C_CLOSE_DEVICE || op == C_SWITCH) {
		put_hdr(c, op, 4);
		put(c, &arg, 4);
	} else put_hdr(c, op, 0);
}
static void drain(Client *c) {
	if (c->cfd < 0) return;
	char buf[512];
	char cb[CMSG_SPACE(sizeof(int) * 128)];
	for (;;) {
		struct iovec io = {buf, sizeof buf};
		struct msghdr m = {};
		m.msg_iov = &io;
		m.msg_iovlen = 1;
		m.msg_control = cb;
		m.msg_controllen = sizeof cb;
		ssize_t r = recvmsg(c->cfd, &m, MSG_DONTWAIT);
		if (m.msg_controllen && r >= 0)
			for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
				if (h->cmsg_type == SCM_RIGHTS) {
					size_t n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
					for (size_t i = 0; i < n; i++) {
						int x;
						memcpy(&x, CMSG_DATA(h) + 4 * i, 4);
						close(x);
					}
				}
		if (r <= 0) break;
	}
}
static void flush_out(Client *c, size_t max) {
	if (c->cfd < 0 || c->outq.empty()) return;
	size_t n = c->outq.size() < max ? c->outq.size() : max;
	// descriptors travel with the first byte of a chunk
	int nf = 0;
	for (auto &f : c->outfds)
		if (f.first < n) nf += f.second;
	if (nf > 100) nf = 100;
	std::vector<int> sf;
	for (int i = 0; i < nf; i++) sf.push_back(open("/dev/null", O_RDONLY | O_CLOEXEC));
	char cb[CMSG_SPACE(sizeof(int) * 128)];
	memset(cb, 0, sizeof cb);
	struct iovec io = {(void *)c->outq.data(), n};
	struct msghdr m = {};
	m.msg_iov = &io;
	m.msg_iovlen = 1;
	if (nf) {
		m.msg_control = cb;
		m.msg_controllen = CMSG_SPACE(sizeof(int) * nf);
		struct cmsghdr *h = CMSG_FIRSTHDR(&m);
		h->cmsg_level = SOL_SOCKET;
		h->cmsg_type = SCM_RIGHTS;
		h->cmsg_len = CMSG_LEN(sizeof(int) * nf);
		memcpy(CMSG_DATA(h), sf.data(), sizeof(int) * nf);
	}
	ssize_t r = sendmsg(c->cfd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
	for (int x : sf) close(x);
	if (r < 0) {
		if (errno == EAGAIN) return;
		c->outq.clear();
		c->outfds.clear();
		return;
	}
	tr("driver: client %d sends %zd bytes%s", c->id, r, nf ? " with descriptors" : "");
	c->outq.erase(0, (size_t)r);
	std::vector<std::pair<size_t, int>> keep;
	for (auto &f : c->outfds)
		if (f.first >= (size_t)r) keep.push_back({f.first - (size_t)r, f.second});
	c->outfds = keep;
}
#ifdef SIM_BUILTIN
static const bool builtin = true;
#else
static const bool builtin = false;
#endif
static Client *connect_client() {
	if (builtin) return nullptr;
	int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
	if (fd < 0) broken("socket: %s", strerror(errno));
	struct sockaddr_un a = {};
	a.sun_family = AF_UNIX;
	strncpy(a.sun_path, sock.c_str(), sizeof a.sun_path - 1);
	if (connect(fd, (struct sockaddr *)&a, sizeof a) != 0) {
		if (errno == EAGAIN) {
			close(fd);
			return nullptr;
		}
		broken("connect %s: %s", sock.c_str(), strerror(errno));
	}
	Client *c = new Client();
	c->id = (int)clients.size();
	c->cfd = fd;
	int r = rng.range(0, 99);
	c->policy = r < P.hostile ? 2 : r < P.hostile + P.blind ? 1 : 0;
	clients.push_back(c);
	tr("driver: client %d connects (policy %d)", c->id, c->policy);
	st("act.connect");
	return c;
}
static void disconnect(Client *c) {
	if (c->cfd < 0) return;
	tr("driver: client %d disconnects (%s)", c->id, stname[c->state]);
	st("act.disconnect");
	st((std::string("disconnect-in.") + stname[c->state]).c_str());
	if (!c->stalled) drain(c);
	close(c->cfd);
	c->cfd = -1;
	c->left = true;
	c->stalled = false;
	c->outq.clear();
	c->outfds.clear();
}

static int alive_clients() {
	int n = 0;
	for (auto c : clients)
		if (c->cfd >= 0 && !c->gone && !c->left) n++;
	return n;
}
static Client *pick_client() {
	std::vector<Client *> v;
	for (auto c : clients)
		if (c->cfd >= 0 && !c->gone && !c->left) v.push_back(c);
	if (v.empty()) return nullptr;
	return v[rng.below(v.size())];
}
static int pick_dev(Client *c) {
	if (!c->devs.empty() && rng.pct(75)) {
		auto it = c->devs.begin();
		std::advance(it, rng.below(c->devs.size()));
		return it->first;
	}
	int r = rng.range(0, 9);
	if (r < 5) return rng.range(0, 6);
	if (r < 7) return rng.range(-3, 200);
	if (r == 7) return INT_MAX;
	if (r == 8) return INT_MIN;
	// an id valid in another session
	for (auto o : clients)
		if (o != c && !o->devs.empty()) return o->devs.rbegin()->first;
	return (int)rng.next();
}
static int pick_session(Client *c) {
	int r = rng.range(0, 99);
	if (vtbound) {
		if (r < 75) return rng.range(1, 4);
		if (r < 80) return c->session;
		if (r < 90) return rng.range(-2, 0);
		return rng.range(5, 70);
	}
	if (r < 75) {
		std::vector<int> v;
		for (auto o : clients)
			if (o->member() && !o->gone && o != c) v.push_back(o->session);
		if (!v.empty()) return v[rng.below(v.size())];
	}
	if (r < 82) return c->session;
	if (r < 90) return rng.range(-2, 0);
	return rng.range(0, join_counter + 2);
}
static void queue_request(Client *c) {
	bool any = c->policy != 0 && rng.pct(30);
	if (rng.pct(P.pc_illegal) && c->policy) any = true;
	if (any) {
		int op = rng.range(1, 7);
		if (op == C_OPEN_DEVICE) put_req(c, op, 0, pick_path());
		else if (op == C_CLOSE_DEVICE) put_req(c, op, pick_dev(c));
		else if (op == C_SWITCH) put_req(c, op, pick_session(c));
		else put_req(c, op);
		if (op == C_DISABLE_SEAT) c->ack_queued = true;
		return;
	}
	int w_open = 0, w_close = 0, w_opend = 0, w_closed = 0, w_sw = 0, w_ack = 0, w_ping = 4;
	switch (c->state) {
	case NOSEAT:
		w_open = c->has_unreplied(C_OPEN_SEAT) || c->outq.size() ? 0 : 80;
		break;
	case NEW:
	case DISABLED:
		w_opend = 6; w_closed = 6; w_sw = 5; w_ack = 3; w_close = 3;
		break;
	case ENABLED:
		w_opend = P.open_weight; w_closed = P.close_weight; w_sw = P.switch_weight; w_ack = 2; w_close = 2;
		break;
	case PENDING:
		w_ack = c->ack_queued ? 1 : 40; w_closed = 8; w_opend = 6; w_sw = 4; w_close = 3;
		break;
	}
	int t = (int)rng.below(w_open + w_close + w_opend + w_closed + w_sw + w_ack + w_ping);
	if ((t -= w_open) < 0) return put_req(c, C_OPEN_SEAT);
	if ((t -= w_close) < 0) {
		put_req(c, C_CLOSE_SEAT);
		return;
	}
	if ((t -= w_opend) < 0) return put_req(c, C_OPEN_DEVICE, 0, pick_path());
	if ((t -= w_closed) < 0) return put_req(c, C_CLOSE_DEVICE, pick_dev(c));
	if ((t -= w_sw) < 0) return put_req(c, C_SWITCH, pick_session(c));
	if ((t -= w_ack) < 0) {
		c->ack_queued = true;
		return put_req(c, C_DISABLE_SEAT);
	}
	put_req(c, C_PING);
}
static void queue_malformed(Client *c) {
	st("act.malformed");
	int k = rng.range(0, 13);
	tr("driver: client %d queues malformed kind %d", c->id, k);
	char junk[600];
	for (auto &b : junk) b = (char)rng.next();
	switch (k) {
	case 0: { int op = rng.pct(50) ? rng.range(8, 65535) : 0x8000 + rng.range(1, 9); put_hdr(c, op, 0); break; }
	case 1: put_hdr(c, C_OPEN_SEAT, 4); put(c, junk, 4); break;
	case 2: put_hdr(c, C_CLOSE_SEAT, 1); put(c, junk, 1); break;
	case 3: put_hdr(c, C_CLOSE_DEVICE, rng.pct(50) ? 0 : 3); put(c, junk, 3); break;
	case 4: put_hdr(c, C_SWITCH, 8); put(c, junk, 8); break;
	case 5: { // wrong path_len
		int sz = rng.range(3, 40);
		uint16_t l = (uint16_t)(rng.pct(50) ? sz - 2 + rng.range(1, 300) : rng.range(0, sz - 3));
		put_hdr(c, C_OPEN_DEVICE, sz);
		put(c, &l, 2);
		put(c, junk, sz - 2);
		break;
	}
	case 6: { // unterminated
		int n = rng.range(1, 248);
		uint16_t l = (uint16_t)n;
		put_hdr(c, C_OPEN_DEVICE, 2 + n);
		put(c, &l, 2);
		std::string s(n, 'a');
		if (rng.pct(40)) s = ("/dev/input/event0" + s).substr(0, n);
		put(c, s.data(), n);
		break;
	}
	case 7: { // embedded NUL
		std::string s = std::string("/dev/dri/card0\0/x\0", 18);
		uint16_t l = 18;
		put_hdr(c, C_OPEN_DEVICE, 2 + l);
		put(c, &l, 2);
		put(c, s.data(), l);
		break;
	}
	case 8: put_hdr(c, C_OPEN_DEVICE, rng.range(0, 2)); put(c, "\0\0", 2); break;
	case 9: put_hdr(c, rng.range(1, 7), rng.range(253, 65535)); put(c, junk, rng.range(1, 500)); break;
	case 10: { // maximal and over-long paths
		int n = rng.range(249, 258);
		uint16_t l = (uint16_t)n;
		put_hdr(c, C_OPEN_DEVICE, 2 + n);
		put(c, &l, 2);
		std::string s(n, '/');
		s[n - 1] = 0;
		put(c, s.data(), n);
		break;
	}
	case 11: put_hdr(c, C_DISABLE_SEAT, 0xffff); break;
	case 12: put_hdr(c, C_PING, rng.range(1, 8)); put(c, junk, 8); break;
	case 13: { uint16_t l = 0; put_hdr(c, C_OPEN_DEVICE, 2); put(c, &l, 2); break; }
	}
}
static bool con_settled() {
	for (auto &kv : con.vts) {
		if (kv.second.newvt >= 0 && kv.second.mode == VT_PROCESS) return false;
		if (kv.second.acq_unacked && con.fg == kv.first) return false;
	}
	return true;
}
static void user_vt() {
	if (!con_settled() && !P.midvt) return;
	int n = rng.range(1, 4);
	// prefer VTs with sessions
	if (rng.pct(50))
		for (auto c : clients)
			if (c->member() && !c->gone && c->session != con.fg && rng.pct(60)) n = c->session;
	tr("driver: user switches to VT %d (from %d)", n, con.fg);
	st("act.user-vt");
	con_set(n);
}
static void maybe_send(Client *c) {
	if (c->stalled && c->outq.size() > 3000) return;
	if (rng.pct(P.pc_frag)) flush_out(c, 1 + rng.below(c->outq.size() ? c->outq.size() : 1));
	else if (rng.pct(85)) flush_out(c, 100000);
}
static void do_stall(Client *c) {
	c->stalled = true;
	c->window = rng.pct(50) ? 0 : rng.range(1, 40);
	tr("driver: client %d stops reading (window %ld)", c->id, c->window);
	st("act.stall");
	// replies pile up to the brim of the daemon's buffer, then one more request
	if (!c->gone && !c->left && c->outq.empty() && rng.pct(P.pc_brim)) {
		c->window = 0;
		int n = rng.range(48, 65);
		for (int i = 0; i < n; i++) put_req(c, C_PING);
		if (c->state == NOSEAT && !c->has_unreplied(C_OPEN_SEAT)) put_req(c, C_OPEN_SEAT);
		else if (c->state == PENDING && !c->ack_queued && rng.pct(40)) { put_req(c, C_DISABLE_SEAT); c->ack_queued = true; }
		else
			switch (c->member() ? rng.below(7) : 6) {
			case 0: put_req(c, C_OPEN_DEVICE, 0, pick_path()); break;
			case 1: put_req(c, C_CLOSE_DEVICE, pick_dev(c)); break;
			case 2: put_req(c, C_SWITCH, pick_session(c)); break;
			case 3: put_req(c, C_CLOSE_SEAT); break;
			case 4: put_req(c, C_OPEN_DEVICE, 0, "/dev/input/event0"); break;
			case 5: queue_request(c); break;
			default: put_req(c, C_PING);
			}
		flush_out(c, 100000);
		st("act.brim");
	}
}
static void do_unstall(Client *c) {
	if (!c->stalled) return;
	c->stalled = false;
	c->window = -1;
	tr("driver: client %d reads again", c->id);
	st("act.unstall");
	drain(c);
}
static void driver_step() {
	int live = alive_clients();
	int w[12] = {builtin ? 0 : live < P.max_clients ? P.w_connect + (live == 0 ? 100 : 0) : 0,
		     live ? P.w_req : 0,
		     live ? P.w_flush : 0,
		     live ? P.w_disc : 0,
		     live ? P.w_half : 0,
		     live ? P.w_malformed : 0,
		     live ? P.w_noise : 0,
		     live ? P.w_fdpush : 0,
		     vtbound ? P.w_vt : 0,
		     live ? P.w_stall : 0,
		     P.w_sig,
		     live ? P.w_ack : 0};
	int tot = 0;
	for (int x : w) tot += x;
	if (!tot) return;
	int t = (int)rng.below(tot);
	int a = 0;
	while ((t -= w[a]) >= 0) a++;
	Client *c = a == 0 || a == 8 || a == 10 ? nullptr : pick_client();
	switch (a) {
	case 0:
		c = connect_client();
		if (c && rng.pct(80)) {
			put_req(c, C_OPEN_SEAT);
			maybe_send(c);
		}
		break;
	case 1: {
		int n = rng.pct(75) ? 1 : rng.range(2, 6);
		if (c->outq.size() > 2000) n = 0;
		if (n && rng.pct(4)) { // many small requests at once
			n = rng.range(20, 130);
			st("act.burst");
			for (int i = 0; i < n; i++) put_req(c, rng.pct(93) ? C_PING : c->policy ? C_CLOSE_DEVICE : C_PING, -5);
			if (rng.pct(80)) { flush_out(c, 100000); break; }
			n = 0;
		}
		if (n && P.many && c->state == ENABLED && c->outq.empty() && rng.pct(50)) {
			// open devices it does not have yet, up to and beyond the limit
			st("act.fill");
			int from = rng.range(0, 139), left = rng.range(8, 40);
			if (c->devs.size() >= 124) left = rng.range(1, 6);
			for (int i = 0; i < 140 && left; i++) {
				std::string p = "/dev/input/event" + std::to_string((from + i) % 140);
				if (dev_by_path(c, p)) continue;
				put_req(c, C_OPEN_DEVICE, 0, p);
				left--;
			}
			n = 0;
		}
		for (int i = 0; i < n; i++) queue_request(c);
		maybe_send(c);
		break;
	}
	case 2: flush_out(c, rng.pct(50) ? 100000 : 1 + rng.below(30)); break;
	case 3:
		if (c->outq.size() && rng.pct(50)) flush_out(c, 1 + rng.below(c->outq.size()));
		disconnect(c);
		break;
	case 4:
		tr("driver: client %d shuts down writing", c->id);
		shutdown(c->cfd, SHUT_WR);
		c->left = c->half = true;
		c->outq.clear();
		break;
	case 5:
		if (c->policy != 2) break;
		queue_malformed(c);
		maybe_send(c);
		break;
	case 6: {
		if (c->policy != 2) break;
		int n = rng.range(1, 400);
		tr("driver: client %d queues %d random bytes", c->id, n);
		std::string s;
		for (int i = 0; i < n; i++) s += (char)(rng.pct(60) ? rng.range(0, 8) : rng.range(0, 255));
		put(c, s.data(), s.size());
		maybe_send(c);
		break;
	}
	case 7: {
		if (c->policy == 0) break;
		int n = rng.pct(70) ? rng.range(1, 4) : rng.range(20, 90);
		c->outfds.push_back({c->outq.size(), n});
		tr("driver: client %d attaches %d descriptors", c->id, n);
		st("act.fdpush");
		put_req(c, C_PING);
		maybe_send(c);
		break;
	}
	case 8: user_vt(); break;
	case 9:
		if (c->stalled) do_unstall(c);
		else do_stall(c);
		break;
	case 10:
		if (vtbound) {
			// a stray acquire signal is harmless
			if (con_settled() && rng.pct(50)) deliver(SIGUSR2);
		} else deliver(rng.pct(50) ? SIGUSR1 : SIGUSR2);
		break;
	case 11:
		for (auto x : clients)
			if (x->cfd >= 0 && !x->left && !x->gone && x->state == PENDING && !x->ack_queued && rng.pct(70)) {
				put_req(x, C_DISABLE_SEAT);
				x->ack_queued = true;
				maybe_send(x);
				break;
			}
		break;
	}
}

static bool opening_seat() {
	for (auto c : clients) {
		if (c->gone) continue;
		for (auto &r : c->req)
			if (r.op == C_OPEN_SEAT) return true;
	}
	return false;
}
static void mid_hook() {
	if (in_mid || phase >= 2 || !P.pc_mid || !rng.permille(P.pc_mid)) return;
	in_mid = true;
	Client *c = pick_client();
	int r = rng.range(0, 9);
	st("act.mid");
	if (c) {
		if (r < 2) disconnect(c);
		else if (r < 7) {
			queue_request(c);
			flush_out(c, 100000);
		} else flush_out(c, 1 + rng.below(20));
	}
	// the user leaves a VT without a session in the middle of a handler (a VT
	// with a session is kept until the daemon lets go of it)
	if (vtbound && P.midvt && r >= 8 && con.vt(con.fg).mode == VT_AUTO && con_settled() && !opening_seat()) {
		st("act.mid-vt");
		user_vt();
	}
	in_mid = false;
}

// everything settled and script exhausted: bring the run to its end
static bool finish_step() {
	switch (phase) {
	case 0:
		// the world calms down: no more faults, everybody reads and sends what it has
		if (plan.active) {
			plan.active = false;
			fault_done = true;
		}
		for (auto c : clients) {
			if (c->stalled) do_unstall(c);
			if (c->cfd >= 0) flush_out(c, 100000);
		}
		phase = 1;
		return true;
	case 1: {
		for (auto c : clients)
			if (c->cfd >= 0) {
				drain(c);
				flush_out(c, 100000);
			}
		bool any = false;
		for (auto c : clients)
			if (c->cfd >= 0 && !c->left && !c->gone && c->state == PENDING && !c->blocked) {
				put_req(c, C_DISABLE_SEAT);
				flush_out(c, 100000);
				any = true;
			}
		if (any && ++idle_polls < 60) return true;
		phase = rng.pct(60) || relaxed ? 2 : 5;
		idle_polls = 0;
		return true;
	}
	case 2: {
		std::vector<Client *> v;
		for (auto c : clients)
			if (c->cfd >= 0) v.push_back(c);
		if (v.empty()) {
			phase = builtin ? 5 : 3;
			return true;
		}
		Client *c = v[rng.below(v.size())];
		if (!c->left && !c->gone && c->member() && rng.pct(40) && c->outq.empty()) {
			put_req(c, C_CLOSE_SEAT);
			flush_out(c, 100000);
		} else {
			c->left = c->half = false;
			disconnect(c);
		}
		return true;
	}
	case 3: {
		// nobody is connected: everything must be back where it started
		for (auto c : clients)
			if (c->accepted && !c->gone) violation("life.not-removed", "client %d is gone but still served", c->id);
		st("check.idle-baseline");
		if (allocs.size() > base_allocs)
			violation("leak.memory", "%zu allocations with no client connected, %zu at the start", allocs.size(), base_allocs);
		int other = live_kind(F_OTHER) + live_kind(F_SOCK) + live_kind(F_PIPE);
		if (other > base_fds_other) violation("leak.fd", "%d descriptors with no client connected, %d at the start", other, base_fds_other);
		if (live_kind(F_CLIENT) || live_kind(F_DEV) || live_kind(F_PASSED))
			violation("leak.fd", "descriptors of departed clients: %d connections %d devices %d passed", live_kind(F_CLIENT),
				  live_kind(F_DEV), live_kind(F_PASSED));
		for (auto &x : ofds)
			if (x.second.is_dev() && unrevoked(x.second))
				violation("rev.not-revoked", "nobody is connected but %s works", ofd_str(x.second));
		if (relaxed) {
			// faults are over: strict service for a newcomer
			relaxed = false;
			int fg = con.fg;
			con = Console();
			con.fg = fg;
			ofds.clear();
			for (auto c : clients) c->unsure = true;
			join_counter = 100000;
		}
		Client *c = connect_client();
		if (!c) broken("probe client cannot connect");
		c->policy = 0;
		probe_id = c->id;
		put_req(c, C_OPEN_SEAT);
		flush_out(c, 100000);
		phase = 4;
		idle_polls = 0;
		return true;
	}
	case 4: {
		Client *c = clients[probe_id];
		idle_polls++;
		if (c->gone || c->state != ENABLED)
			violation("service.lost", "a new client on the idle daemon is not served (%s)", c->gone ? "disconnected" : stname[c->state]);
		if (idle_polls == 1) {
			put_req(c, C_OPEN_DEVICE, 0, "/dev/dri/card0");
			put_req(c, C_OPEN_DEVICE, 0, "/dev/input/event0");
			put_req(c, C_PING);
			flush_out(c, 100000);
			return true;
		}
		if (c->devs.size() != 2) violation("service.lost", "a new client on the idle daemon cannot open devices");
		st("check.service-probe");
		if (rng.pct(50)) {
			disconnect(c);
		}
		phase = 5;
		return true;
	}
	case 5:
		tr("driver: SIGTERM");
		stopping = true;
		sigterm_sent = true;
		phase = 6;
		if (!deliver(rng.pct(80) ? SIGTERM : SIGINT)) violation("stop.no-handler", "no SIGTERM handler");
		return true;
	default: return false;
	}
}

// ---- the child's part of the builtin backend (variant builtin) ----
#ifdef SIM_BUILTIN
#include <setjmp.h>
extern "C" {
#include "backend.h"
#include "libseat.h"
extern const struct seat_impl builtin_impl;
}
static int pair_fd[2], pair_dup[2], pair_closed;
static bool pair_made, pair_done;
static jmp_buf exit_jmp;
static int exit_rc, forks;
static void builtin_resolve(int closing = -1) {
	if (!pair_made || pair_done) return;
	if (closing < 0) violation("builtin.other-end", "the embedded server still has both ends of the connection when it starts to serve");
	int mine = closing == pair_fd[0] ? 1 : 0;
	pair_done = true;
	clients[0]->cfd = pair_dup[!mine];
	close(pair_dup[mine]);
	clients[0]->accepted = true;
	clients[0]->sfd = pair_fd[mine];
	by_sfd[pair_fd[mine]] = clients[0];
	fds[pair_fd[mine]].kind = F_CLIENT;
	fds[pair_fd[mine]].client = 0;
}
extern "C" {
int sim_connect(int, const struct sockaddr *, socklen_t) { errno = ECONNREFUSED; return -1; }
pid_t sim_fork(void) { forks++; tr("fork: continue as the child"); return 0; }
void sim__exit(int rc) { exit_rc = rc; longjmp(exit_jmp, 1); }
void sim_exit(int rc) { sim__exit(rc); }
}
static int builtin_main(const char *lvl) {
	pair_made = pair_done = false;
	forks = 0;
	libseat_set_log_level(!strcmp(lvl, "debug") ? LIBSEAT_LOG_LEVEL_DEBUG : LIBSEAT_LOG_LEVEL_SILENT);
	Client *c = new Client();
	c->id = 0;
	int r = rng.range(0, 99);
	c->policy = r < P.hostile ? 2 : r < P.hostile + P.blind ? 1 : 0;
	clients.push_back(c);
	hk.socketpair = [](int *sv) {
		if (pair_made) broken("second socketpair");
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, sv)) broken("socketpair");
		for (int i = 0; i < 2; i++) {
			pair_fd[i] = sv[i];
			pair_dup[i] = fcntl(sv[i], F_DUPFD_CLOEXEC, 200);
			reg(sv[i], F_PASSED);
		}
		pair_made = true;
		put_req(clients[0], C_OPEN_SEAT);
		return 0;
	};
	auto old = hk.closing;
	hk.closing = [old](int fd, const FdInfo &fi) {
		if (pair_made && !pair_done && (fd == pair_fd[0] || fd == pair_fd[1])) builtin_resolve(fd);
		else if (old) old(fd, fi);
	};
	hk.closed_again = [](int fd) { return pair_made && (fd == pair_fd[0] || fd == pair_fd[1]); };
	static const struct libseat_seat_listener l = {
		[](struct libseat *, void *) { violation("builtin.callback", "the embedded server called the application's listener"); },
		[](struct libseat *, void *) { violation("builtin.callback", "the embedded server called the application's listener"); }};
	if (setjmp(exit_jmp) == 0) {
		builtin_impl.open_seat(&l, nullptr);
		violation("builtin.returns", "the embedded server's process returned into the application");
	}
	if (forks != 1) violation("builtin.forks", "%d server processes started", forks);
	return exit_rc;
}
#else
static void builtin_resolve(int = 0) {}
#endif
static uint64_t zero_progress;
static int sim_poll_hook(struct pollfd *p, nfds_t n, int timeout) {
	int extra = 0;
	on_sleep();
	builtin_resolve();
	mid_hook();
	for (auto &f : foreign_ok) (void)f;
	for (nfds_t i = 0; i < n; i++)
		if (p[i].fd >= 0 && fcntl(p[i].fd, F_GETFD) == -1)
			violation("poll.stale-fd", "poll() on descriptor %d which is closed", p[i].fd);
	if (fault("poll", {EINTR})) return -1;
	if (plan.active && plan.allow_poll_fail && fault("poll-fail", {ENOMEM})) {
		injected_poll++;
		return -1;
	}
	if (rng.permille(P.pc_eintr)) return errno = EINTR, -1;
	if (!have_base && timeout != 0) {
		have_base = true;
		base_allocs = allocs.size();
		base_fds_other = live_kind(F_OTHER) + live_kind(F_SOCK) + live_kind(F_PIPE);
	}
	for (;;) {
		for (auto c : clients)
			if (c->cfd >= 0 && !c->stalled) drain(c);
		int r = poll(p, n, 0);
		if (r > 0)
			for (nfds_t i = 0; i < n; i++) {
				auto it = by_sfd.find(p[i].fd);
				if (it == by_sfd.end()) continue;
				if ((p[i].revents & POLLOUT) && it->second->window == 0) {
					p[i].revents &= (short)~POLLOUT;
					if (!p[i].revents) r--;
				}
			}
		if (r > 0) {
			// let more of the world happen before the daemon looks
			if (steps_left > 0 && extra < 6 && rng.pct(25)) {
				extra++;
				steps_left--;
				driver_step();
				continue;
			}
			st("poll.ready");
			if (++zero_progress > 20000) violation("spin", "poll() reports readiness 20000 times without the world moving");
			for (nfds_t i = 0; i < n; i++) {
				auto it = by_sfd.find(p[i].fd);
				if (it == by_sfd.end() || it->second->gone) continue;
				Client *c = it->second;
				if (!(p[i].events & POLLOUT)) {
					if (c->idle_writable) st("check.writable-dropped");
					c->idle_writable = 0;
				} else if (p[i].revents & POLLOUT) {
					c->idle_writable = c->tried ? 1 : c->idle_writable + 1;
					if (c->idle_writable > 4) violation("slow.busy", "the daemon waits for client %d to become writable, over and over, with nothing to send to it", c->id);
					st("poll.writable");
				}
				c->tried = false;
			}
			for (nfds_t i = 0; i < n; i++)
				if (p[i].revents & POLLNVAL) violation("poll.stale-fd", "poll() on an invalid descriptor");
			return r;
		}
		if (r < 0) broken("poll: %s", strerror(errno));
		if (timeout == 0) return 0;
		zero_progress = 0;
		if (builtin && clients[0]->gone) violation("builtin.not-ended", "the embedded server keeps running after its client is gone");
		quiescent();
		if (steps_left > 0) {
			steps_left--;
			driver_step();
			continue;
		}
		if (timeout > 0) return 0;
		if (!finish_step()) violation("stop.ignored", "SIGTERM does not stop the daemon");
	}
}

static int saved_stderr = -1;

static void choose_profile() {
	P = Profile();
	const std::string &n = run.profile;
	if (n == "C01") { P.vt = -1; P.max_clients = 6; P.switch_weight = 25; P.open_weight = 12; }
	else if (n == "C02") { P.open_weight = 45; P.switch_weight = 22; P.w_vt = 18; P.max_clients = 4; P.w_disc = 8; }
	else if (n == "C03") { P.open_weight = 80; P.max_clients = 3; P.vt = rng.pct(80) ? 0 : 1; }
	else if (n == "C04") { P.open_weight = 60; P.close_weight = 35; P.max_clients = 3; P.many = rng.pct(25); if (P.many) { P.steps_lo = 200; P.steps_hi = 330; P.switch_weight = 3; } }
	else if (n == "C05") { P.w_disc = 12; P.w_fdpush = 6; P.blind = 25; P.w_half = 3; P.steps_hi = 110; P.w_stall = 3; P.switch_weight = 20; P.pc_mid = 8; }
	else if (n == "C06") { P.pc_frag = 50; P.pc_shortread = 40; P.pc_partial = 20; P.blind = 30; }
	else if (n == "C07") { P.hostile = 45; P.blind = 20; P.w_malformed = 12; P.w_noise = 6; P.w_fdpush = 8; P.pc_mid = 8; P.w_disc = 8; }
	else if (n == "C08") { P.vt = 0; P.max_clients = 6; P.switch_weight = 40; P.open_weight = 10; P.w_disc = 9; }
	else if (n == "C09") { P.vt = 1; P.w_vt = 30; P.switch_weight = 20; P.max_clients = 6; P.w_connect = 20; }
	else if (n == "C10") { P.vt = 1; P.w_vt = 25; P.w_disc = 14; P.switch_weight = 12; P.max_clients = 5; P.w_connect = 20; }
	else if (n == "C12") { P.w_stall = 14; P.pc_brim = 20; P.pc_partial = 15; P.hostile = 4; P.blind = 8; P.steps_hi = 110; }
	else if (n == "C14") { P.faults = true; P.w_disc = 6; P.w_stall = 2; }
	else if (n == "C14S") { P.faults = P.single = true; P.w_disc = 6; P.steps_lo = 6; P.steps_hi = 20; P.open_weight = 45; P.max_clients = 4; P.pc_eintr = 0; }
	else if (n == "C13") { P.vt = 1; P.w_vt = 30; P.pc_eintr = 60; P.w_sig = 6; P.w_disc = 9; }
	else if (n == "C21") { P.w_disc = 2; P.faults = rng.pct(20); P.w_vt = 15; P.open_weight = 30; P.hostile = 10; P.w_stall = 2; P.pc_mid = rng.pct(30) ? 8 : 0; }
	if (rng.pct(10)) { P.pc_mid = 20; }
	if (rng.pct(25)) { P.midvt = true; P.pc_mid = std::max(P.pc_mid, 20); }
	if (rng.pct(10)) { P.max_clients = 12; P.w_connect = 30; }
}

static uint64_t cal_base = 0;

static int run_case(uint64_t idx) {
	run.case_cur = idx;
	// single faults: the same history for every place of the fault
	rng.seed(run.seed, run.profile == "C14S" ? idx / 256 : idx);
	trace_reset();
	k::reset();
	mon::reset();
	choose_profile();
	fs_build();
	install();
	phase = 0;
	idle_polls = 0;
	sigterm_sent = false;
	have_base = false;
	in_mid = false;
	zero_progress = 0;
	fault_done = false;
	steps_left = rng.range(P.steps_lo, P.steps_hi);
	if (rng.pct(15)) steps_left *= 3;
	vtbound = P.vt == -1 ? rng.pct(45) : P.vt;
	session_base = (int)cal_base;
	sock = run.scratch + "/s";
	unlink(sock.c_str());
	if (vtbound) {
		if (rng.pct(50)) unsetenv("SEATD_VTBOUND");
		else setenv("SEATD_VTBOUND", "1", 1);
		con.fg = rng.range(1, 3);
	} else setenv("SEATD_VTBOUND", rng.pct(80) ? "0" : "no", 1);
	const char *lvl = rng.pct(12) ? "debug" : "silent";
	tr("case %llu profile %s %s steps %d", (unsigned long long)idx, run.profile.c_str(), vtbound ? "vt-bound" : "unbound", steps_left);
	hk.poll = sim_poll_hook;
	hk.mid = mid_hook;
	hk.accepted = [](int nfd) -> int {
		for (auto c : clients)
			if (!c->accepted) {
				c->accepted = true;
				c->sfd = nfd;
				by_sfd[nfd] = c;
				cur = nullptr;
				return c->id;
			}
		broken("accept without a connecting client");
	};
	hk.read_limit = [](int, size_t want) -> size_t {
		if (want > 1 && rng.pct(P.pc_shortread)) return 1 + rng.below(want);
		return want;
	};
	hk.window = [](int fd) -> long {
		auto it = by_sfd.find(fd);
		if (it == by_sfd.end()) return -1;
		it->second->tried = true;
		if (it->second->window < 0 && rng.pct(P.pc_partial)) {
			st("partial-send");
			return 1 + rng.below(8);
		}
		return it->second->window;
	};
	if (P.faults && P.single) {
		plan.active = true;
		plan.nth = (int64_t)(idx % 256);
		plan.err_pick = (int)(idx / 256 + idx % 256);
		serialized_vt = true;
		k::on_fault = on_single_fault;
	} else if (P.faults) {
		relaxed = true;
		plan.active = true;
		plan.permille = rng.range(5, 60);
		plan.allow_poll_fail = rng.pct(10);
		serialized_vt = true;
	}
	if (builtin) P.w_connect = 0;
	optind = 0;
	cpu_limit(30);
	char a0[] = "seatd", a1[] = "-l";
	char a2[16];
	strcpy(a2, lvl);
	char *argv[] = {a0, a1, a2, nullptr};
	bool was_fault_start = P.faults && (builtin || rng.pct(85));
	if (was_fault_start) {
		// let start-up succeed, then let things fail
		bool act = plan.active;
		plan.active = false;
		hk.poll = [act](struct pollfd *p, nfds_t n, int t) {
			plan.active = act;
			hk.poll = sim_poll_hook;
			return sim_poll_hook(p, n, t);
		};
	}
#ifdef SIM_BUILTIN
	(void)argv;
	int rc = builtin_main(lvl);
	if (rc == 0 && clients[0]->gone) {
		sigterm_sent = true;
		st("check.ended-with-client");
	}
#else
	int rc = seatd_main(3, argv);
#endif
	cpu_limit(0);
	tr("seatd returned %d", rc);
	bool fatal_ok = injected_alloc > 0 || injected_poll > 0 || (P.faults && !was_fault_start);
	if (rc != 0 && !(fatal_ok)) violation("stop.status", "seatd exits with status %d", rc);
	if (!sigterm_sent && !fatal_ok) violation("stop.early", "seatd stopped by itself (status %d)", rc);
	if (!sigterm_sent) stopping = true;
	// everything is released
	for (auto c : clients)
		if (c->accepted && !c->gone) violation("leak.client-fd", "client %d still connected after exit", c->id);
	if (live_kind(F_DEV) || live_kind(F_CLIENT) || live_kind(F_PASSED) || live_kind(F_TTY))
		violation("leak.fd", "descriptors open at exit: %d devices %d connections %d passed %d consoles", live_kind(F_DEV),
			  live_kind(F_CLIENT), live_kind(F_PASSED), live_kind(F_TTY));
	if (!allocs.empty()) violation("leak.memory", "%zu allocations live at exit", allocs.size());
	for (auto &x : ofds)
		if (x.second.is_dev() && unrevoked(x.second)) violation("rev.not-revoked", "after exit: %s still works", ofd_str(x.second));
	if (vtbound && !relaxed)
		for (auto &kv : con.vts)
			if (kv.second.kd != KD_TEXT || (kv.second.kb != K_UNICODE && kv.second.kb != K_XLATE))
				violation("vt.not-restored", "after exit: VT %d kd %d kb %d", kv.first, kv.second.kd, kv.second.kb);
	if (access(sock.c_str(), F_OK) == 0 && !fatal_ok) violation("stop.socket", "socket file left behind");
	st("check.exit");
	// clean the process for the next case
	for (auto c : clients)
		if (c->cfd >= 0) close(c->cfd);
	for (auto &f : fds) close(f.first);
	memcheck_report();
	cases_run++;
	st(vtbound ? "mode.vt" : "mode.unbound");
	st("ev.handover", handovers);
	st("clients", clients.size());
	if (injected) st("faults", (uint64_t)injected);
	for (auto &kv : injected_kinds) stats["fault." + kv.first] += kv.second;
	injected_kinds.clear();
	if (enables >= 1 && (handovers >= 1 || disables >= 1 || stats["reply"] > 0)) {
		if (cases_seen.insert(case_hash).second) cases_nontrivial++;
	}
	if (sample.empty() && handovers >= 2) {
		for (size_t i = 0; i < trace_ring.size() && i < 60; i++) sample += trace_ring[i] + "; ";
	}
	return 0;
}

int main(int argc, char **argv) {
	setup(argc, argv, "sim");
	if (run.scratch.empty()) broken("--scratch needed");
	// the daemon's own log output is not wanted
	if (!run.verbose) {
		int nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
		dup2(nul, 2);
		close(nul);
	}
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		run_case(i);
	}
	dump_stats();
	fflush(stdout);
	_exit(0);
}
