// Online monitor of the server: a reference model of the protocol and of the
// seat, fed only with what crosses the daemon's system-call boundary.
#pragma once
#include <algorithm>
#include <deque>

#include "kern.hpp"

#ifndef HID_SUPPORTED
#define HID_SUPPORTED 0
#endif

namespace mon {
using namespace k;

enum {
	C_OPEN_SEAT = 1, C_CLOSE_SEAT, C_OPEN_DEVICE, C_CLOSE_DEVICE, C_DISABLE_SEAT, C_SWITCH, C_PING,
	S_SEAT_OPENED = 0x8001, S_SEAT_CLOSED, S_DEVICE_OPENED, S_DEVICE_CLOSED, S_DISABLE, S_ENABLE, S_PONG, S_SWITCHED,
	S_SEAT_DISABLED, S_ERROR = 0xffff
};
inline const char *opname(int op) {
	switch (op) {
	case C_OPEN_SEAT: return "open_seat";
	case C_CLOSE_SEAT: return "close_seat";
	case C_OPEN_DEVICE: return "open_device";
	case C_CLOSE_DEVICE: return "close_device";
	case C_DISABLE_SEAT: return "disable_seat";
	case C_SWITCH: return "switch_session";
	case C_PING: return "ping";
	case S_SEAT_OPENED: return "SEAT_OPENED";
	case S_SEAT_CLOSED: return "SEAT_CLOSED";
	case S_DEVICE_OPENED: return "DEVICE_OPENED";
	case S_DEVICE_CLOSED: return "DEVICE_CLOSED";
	case S_DISABLE: return "DISABLE";
	case S_ENABLE: return "ENABLE";
	case S_PONG: return "PONG";
	case S_SWITCHED: return "SESSION_SWITCHED";
	case S_SEAT_DISABLED: return "SEAT_DISABLED";
	case S_ERROR: return "ERROR";
	}
	return "?";
}
enum State { NOSEAT, NEW, ENABLED, PENDING, DISABLED };
inline const char *stname[] = {"noseat", "new", "ENABLED", "PENDING", "disabled"};

struct Req {
	int op = 0; // -1: malformed
	std::string path;
	int arg = 0;
	bool served_open = false; // an open() was made for it
	bool activated = false;   // VT_ACTIVATE was made for it
};
struct Dev {
	std::string path;
	int ref = 0;
	uint64_t ino = 0;
};
struct Client {
	int id = -1;
	int cfd = -1;  // client end
	int sfd = -1;  // server end
	bool accepted = false;
	bool gone = false;   // server closed (or shut down) its end
	bool left = false;   // client closed or shut down its end
	bool half = false;   // client shut down writing
	bool noreset = false;
	std::string rbuf;
	std::deque<Req> req;
	bool bad = false, maybad = false;
	int req_fault = 0; // a call failed while its request was served
	int pushed = 0; // fds pushed
	std::string sbuf;
	std::deque<uint64_t> sfds;
	State state = NOSEAT;
	bool joined = false;
	bool early = false; // ENABLE preceded the reply to the acknowledgement
	int session = -1;
	int epoch = 0;
	std::map<int, Dev> devs;
	int target_req = 0;
	bool blocked = false, ever_blocked = false;
	bool stalled = false;
	long window = -1;
	bool send_failed = false;
	size_t out_left = 0; // bytes the daemon had queued after its last attempt to send
	bool tried = false; // something was sent, or tried, since the last poll()
	int idle_writable = 0; // polls reporting it writable in a row without that
	bool unsure = false; // model uncertain after faults
	// driver side
	int policy = 0;
	std::string outq;
	std::vector<std::pair<size_t, int>> outfds; // offset in outq, number of fds
	bool ack_queued = false;
	uint64_t requests = 0;
	bool member() const { return state != NOSEAT; }
	bool live() const { return accepted && !gone; }
	bool has_unreplied(int op) const {
		for (auto &r : req)
			if (r.op == op) return true;
		return false;
	}
	// replies to this client are not (all) observable
	bool unseen() const { return blocked || send_failed; }
	bool waiting() const { return state == NEW || state == DISABLED; }
};
inline std::vector<Client *> clients;
struct Suspicion { Client *a; std::string tag, text; };
inline std::vector<Suspicion> suspicions;
inline std::map<int, Client *> by_sfd;
inline bool vtbound = false;
inline bool relaxed = false;      // faults may be injected
inline bool serialized_vt = true; // user VT switches wait for the previous handshake
inline bool stopping = false;
inline bool numbers_unsure = false; // a session number may have been used up unseen
inline int session_base = 0, join_counter = 0;
inline int switch_target = -1; // client id
inline bool switch_taint = false;
inline Client *cur = nullptr;
inline std::set<int> vt_used;
inline uint64_t enables = 0, handovers = 0, disables = 0;
inline int last_enabled = -1;

inline void reset() {
	for (auto c : clients) delete c;
	clients.clear(); suspicions.clear();
	by_sfd.clear();
	join_counter = 0;
	switch_target = -1;
	switch_taint = numbers_unsure = false;
	cur = nullptr;
	stopping = false;
	relaxed = false;
	vt_used.clear();
	last_enabled = -1;
	enables = handovers = disables = 0;
}

inline uint64_t sig_last = 0;
inline void note_state(const char *ev) {
	std::vector<uint32_t> v;
	for (auto c : clients) {
		if (c->gone || (!c->accepted && c->left)) continue;
		uint32_t x = c->state | (c->left ? 8 : 0) | (c->blocked ? 16 : 0) | (c->stalled ? 32 : 0);
		int nd = 0, nact = 0;
		for (auto &d : c->devs) {
			nd++;
			auto o = ofds.find(d.second.ino);
			if (o != ofds.end() && o->second.working()) nact++;
		}
		x |= (uint32_t)(nd > 3 ? 3 : nd) << 8 | (uint32_t)(nact > 3 ? 3 : nact) << 10;
		x |= (uint32_t)(c->req.size() > 2 ? 2 : c->req.size()) << 12;
		if (switch_target == c->id) x |= 1 << 14;
		if (vtbound && c->member()) x |= (c->session == con.fg ? 1u : 2u) << 16;
		v.push_back(x);
	}
	std::sort(v.begin(), v.end());
	uint64_t h = 0xcbf29ce484222325ull;
	for (auto x : v) hash_add(h, &x, sizeof x);
	if (vtbound) {
		uint32_t y = 0x80000000u | (con.vt(con.fg).mode << 4) | (con.vt(con.fg).kd << 8) | (con.vt(con.fg).newvt >= 0);
		hash_add(h, &y, sizeof y);
	}
	states.insert(h);
	uint64_t t = sig_last;
	hash_add(t, ev, strlen(ev));
	hash_add(t, &h, sizeof h);
	transitions.insert(t);
	sig_last = h;
}

inline bool path_type_ok(const std::string &p) {
	auto pre = [&](const char *x) { return p.compare(0, strlen(x), x) == 0; };
	return pre("/dev/dri/") || pre("/dev/input/event") || (HID_SUPPORTED && pre("/dev/hidraw"));
}

// Is c, seen from the daemon, already on its way out of the seat?
inline bool leaving(Client *c) {
	return c->gone || c->left || c->send_failed || c->bad || c->has_unreplied(C_CLOSE_SEAT);
}
// must the head request end the connection?
inline bool head_illegal(Client *c) {
	if (c->req.empty()) return false;
	Req &r = c->req.front();
	if (r.op == -1) return true;
	if (r.op == C_PING) return false;
	if (r.op == C_OPEN_SEAT) return c->state != NOSEAT;
	return c->state == NOSEAT;
}
// Slow clients may be dropped once their output can no longer be kept; what
// they still have to be told may also make their next requests illegal.
inline bool slow_excuse(Client *c) {
	if (!c->ever_blocked) return false;
	if (c->out_left >= 128) return true;
	if (!c->out_left) return false;
	bool seat = c->member();
	for (auto &r : c->req) {
		if (r.op == C_OPEN_SEAT || r.op == -1) return true;
		if (r.op == C_PING) continue;
		if (!seat) return true;
		if (r.op == C_CLOSE_SEAT) seat = false;
	}
	return false;
}
// is there a reason for which the daemon may drop c?
inline bool may_drop(Client *c) {
	bool ok = c->left || c->bad || c->maybad || stopping || relaxed || c->pushed > 0 || c->send_failed || slow_excuse(c) ||
		  head_illegal(c) || c->rbuf.size() >= 256;
	// a connection serves one session only
	if (!c->req.empty() && c->req.front().op == C_OPEN_SEAT && c->session != -1) ok = true;
	if (!ok && !c->req.empty() && c->req.front().op == C_OPEN_SEAT && vtbound) {
		for (auto a : clients)
			if (a != c && a->member() && (!a->gone) && a->state == ENABLED) ok = true;
		for (auto a : clients) // the state of a client that does not read is not known yet
			if (a != c && !a->gone && a->blocked && (a->joined || a->member())) ok = true;
		for (auto a : clients) // members waiting on the same VT
			if (a != c && a->member() && !a->gone && a->session == con.fg) ok = true;
	}
	return ok;
}
// Something that is wrong unless a is just being dropped: its connection may be
// closed before or after what follows from that, but in the same round.
inline void suspect(Client *a, const char *tag, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
inline void suspect(Client *a, const char *tag, const char *fmt, ...) {
	char b[300];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (!may_drop(a)) violation(tag, "%s", b);
	st("suspicions");
	suspicions.push_back({a, tag, b});
}
// the code goes to sleep
inline void on_sleep() {
	for (auto &x : suspicions)
		if (!x.a->gone) violation(x.tag.c_str(), "%s", x.text.c_str());
	suspicions.clear();
}
inline Dev *dev_by_path(Client *c, const std::string &p, int *id = nullptr) {
	for (auto &d : c->devs)
		if (d.second.path == p) {
			if (id) *id = d.first;
			return &d.second;
		}
	return nullptr;
}

// ---- device checks ----
inline bool unrevoked(const Ofd &o) { return o.exists() && o.needs_revoke() && o.working() && !(relaxed && o.attempted); }
inline const char *ofd_str(const Ofd &o) {
	static char b[200];
	snprintf(b, sizeof b, "%s #%llu of client %d", o.path.c_str(), (unsigned long long)o.seq, o.owner);
	return b;
}
inline void check_all_revoked(const char *when, Client *except) {
	st("check.revoked");
	for (auto &x : ofds) {
		Ofd &o = x.second;
		if (!o.is_dev() || o.owner < 0) continue;
		if (except && o.owner == except->id && o.owner_epoch == except->epoch) continue;
		if (unrevoked(o)) violation("rev.not-revoked", "%s: %s still works", when, ofd_str(o));
	}
}
inline void check_client_revoked(const char *when, Client *c, int epoch) {
	st("check.revoked");
	for (auto &x : ofds) {
		Ofd &o = x.second;
		if (!o.is_dev() || o.owner != c->id || o.owner_epoch != epoch) continue;
		if (unrevoked(o)) violation("rev.not-revoked", "%s: %s still works", when, ofd_str(o));
	}
}

inline void check_vt_released(Client *c, const char *when) {
	if (!vtbound || c->session <= 0 || relaxed || c->blocked) return;
	for (auto o : clients)
		if (o != c && !o->gone && o->member() && o->session == c->session &&
		    (o->state == ENABLED || o->state == PENDING || o->state == DISABLED))
			return;
	Vt &v = con.vt(c->session);
	st("check.vt-restored");
	if (v.kd != KD_TEXT || (v.kb != K_UNICODE && v.kb != K_XLATE))
		violation("vt.not-restored", "%s: VT %d of client %d is left with kd mode %d kb mode %d", when, c->session, c->id,
			  v.kd, v.kb);
}

inline void on_enable(Client *b) {
	st("ev.enable");
	enables++;
	if (b->state == NOSEAT) violation("proto.event", "ENABLE sent to client %d which has no seat open", b->id);
	if (b->state == ENABLED) violation("excl.enable", "ENABLE sent twice to client %d", b->id);
	if (b->state == PENDING) {
		// the acknowledgement may be answered right after the event it causes
		if (b->req.empty() || b->req.front().op != C_DISABLE_SEAT || b->early)
			violation("excl.enable", "ENABLE sent to client %d which has not acknowledged its disable", b->id);
		b->early = true;
		st("ev.enable-before-ack-reply");
	}
	bool stale = b->blocked && (b->has_unreplied(C_DISABLE_SEAT) || b->has_unreplied(C_CLOSE_SEAT));
	if (!stale) {
		st("check.exclusive");
		for (auto a : clients) {
			if (a == b || !a->accepted || a->gone || a->left || a->send_failed) continue;
			if (a->state != ENABLED && a->state != PENDING) continue;
			if (a->has_unreplied(C_CLOSE_SEAT)) continue;
			if (a->bad) continue;
			if ((a->state == PENDING || a->blocked) && a->has_unreplied(C_DISABLE_SEAT)) continue;
			suspect(a, "excl.enable", "ENABLE sent to client %d while client %d holds the seat (%s)", b->id, a->id,
				stname[a->state]);
		}
		check_all_revoked("when another session is enabled", b);
		// this session's DRM devices work again, revoked input stays revoked
		for (auto &d : b->devs) {
			auto it = ofds.find(d.second.ino);
			if (it == ofds.end() && b->blocked) continue;
			if (it == ofds.end()) violation("rev.lost", "device %d of client %d was closed by the daemon while open", d.first, b->id);
			Ofd &o = it->second;
			if (o.type == N_DRM && !o.master && !relaxed && !b->blocked)
				violation("rev.no-master", "client %d enabled without DRM master on its open device %s", b->id, ofd_str(o));
			st("check.reactivated");
		}
		// switching goes where it was asked to
		if (!vtbound && switch_target >= 0) {
			Client *t = clients[switch_target];
			bool blk = false;
			for (auto a : clients)
				if (a->live() && a->blocked) blk = true;
			if (!switch_taint && !blk && !relaxed && !numbers_unsure && t != b && t->member() && !leaving(t) && t->live())
				suspect(t, "switch.target", "switch was requested to client %d (session %d) but client %d was enabled", t->id,
					  t->session, b->id);
			st("check.switch-target");
			switch_target = -1;
		}
		if (vtbound && !relaxed) {
			st("check.vt-enable");
			Vt &v = con.vt(b->session);
			if (con.fg != b->session && !b->blocked)
				violation("vt.enable-background", "client %d of VT %d enabled while VT %d is in the foreground", b->id,
					  b->session, con.fg);
			if (!b->blocked && (v.kd != KD_GRAPHICS || v.kb != K_OFF || v.mode != VT_PROCESS || !v.relsig || !v.acqsig))
				violation("vt.not-setup", "client %d enabled but VT %d has kd %d kb %d mode %d", b->id, b->session, v.kd, v.kb,
					  v.mode);
		}
	}
	if (last_enabled >= 0 && last_enabled != b->id) handovers++;
	last_enabled = b->id;
	b->state = ENABLED;
}

inline void on_disable(Client *a) {
	st("ev.disable");
	disables++;
	if (a->state != ENABLED)
		violation("excl.disable", "DISABLE sent to client %d in state %s", a->id, stname[a->state]);
	a->state = PENDING;
	if (a->blocked && (a->has_unreplied(C_DISABLE_SEAT) || a->has_unreplied(C_CLOSE_SEAT))) return;
	check_client_revoked("when told to disable", a, a->epoch);
	if (a->blocked) return;
	if (!vtbound) {
		bool ok = false;
		if (!a->req.empty() && a->req.front().op == C_SWITCH) {
			int n = a->req.front().arg;
			for (auto c : clients)
				if (c != a && (c->member() || c->joined) && !c->gone && c->session == n) ok = true;
			if (n == a->session || n <= 0) ok = false;
			if (numbers_unsure) ok = true;
		}
		if (!ok && !relaxed)
			violation("switch.spurious", "DISABLE sent to client %d without a valid switch request of its own", a->id);
	} else if (!relaxed) {
		Vt &v = con.vt(con.fg);
		if (v.newvt < 0 && serialized_vt && !v.rel_sent)
			violation("vt.spurious-disable", "DISABLE sent to client %d while no VT release is requested", a->id);
	}
}

inline void session_ended(Client *c) {
	c->devs.clear();
	c->state = NOSEAT;
	c->epoch++;
}

inline void check_dev_gone(Client *c, const Dev &d, int id) {
	auto it = ofds.find(d.ino);
	if (it == ofds.end()) return;
	Ofd &o = it->second;
	if (unrevoked(o)) violation("rev.close", "device %d (%s) closed by client %d but it still works", id, ofd_str(o), c->id);
	if (o.server_fds > 0)
		violation("leak.device-fd", "device %d (%s) closed by client %d but the daemon still has it open", id, ofd_str(o),
			  c->id);
}

// a device whose revocation failed is tried again before the daemon lets go of it
inline void on_let_go(Ofd &o) {
	if (!o.is_dev() || !o.needs_revoke() || !o.attempted || !o.working() || !o.delivered) return;
	Client *c = o.owner >= 0 && o.owner < (int)clients.size() ? clients[o.owner] : nullptr;
	if (!c || c->ever_blocked) return;
	st("check.tried-again");
	if (o.attempt_round != poll_round) violation("rev.close", "the daemon lets go of %s, which still works, without trying to revoke it again", ofd_str(o));
}

inline void on_error_reply(Client *c, Req &r, int code) {
	st("reply.error");
	std::set<int> ok;
	std::string why;
	bool success_expected = false;
	switch (r.op) {
	case C_OPEN_DEVICE: {
		if (c->state != ENABLED) ok.insert(EPERM);
		std::string rp;
		int e = fs_resolve(r.path, rp);
		if (e) ok.insert(e);
		else if (!path_type_ok(rp)) ok.insert(ENOENT);
		else if (c->state == ENABLED) {
			if (dev_by_path(c, rp)) success_expected = true;
			else {
				if (c->devs.size() >= 128) { ok.insert(EMFILE); st("check.device-limit"); }
				auto &nd = fs[rp];
				if (nd.open_errno) ok.insert(nd.open_errno);
				if (nd.type == N_DIR) ok.insert(EISDIR);
				if (ok.empty()) success_expected = true;
			}
		}
		break;
	}
	case C_CLOSE_DEVICE:
		if (!c->devs.count(r.arg)) ok.insert(EBADF);
		else success_expected = true;
		break;
	case C_SWITCH:
		if (c->state != ENABLED) ok.insert(EPERM);
		if (r.arg <= 0) ok.insert(EINVAL);
		else if (c->state == ENABLED) {
			if (numbers_unsure && !vtbound) ok.insert(EINVAL);
			else if (r.arg == c->session) success_expected = true;
			else if (!vtbound) {
				bool known = false;
				for (auto t : clients)
					if (t->member() && !t->gone && t->session == r.arg) known = true;
				// a target that is just leaving may already be unknown
				bool sure = known;
				for (auto t : clients)
					if (t->member() && t->session == r.arg && leaving(t)) sure = false;
				if (c->blocked || numbers_unsure) ok.insert(EINVAL); // decided at an earlier time
				else if (sure) success_expected = true;
				else ok.insert(EINVAL);
			} else if (r.arg > 63) ok.insert({EINVAL, ENXIO});
			else success_expected = true;
		}
		break;
	case C_DISABLE_SEAT:
		if (c->state != PENDING) ok.insert(EBUSY);
		else success_expected = true;
		break;
	case C_PING:
	case C_OPEN_SEAT:
	case C_CLOSE_SEAT: success_expected = true; break;
	}
	if (relaxed) return;
	if (c->req_fault && r.op == C_OPEN_DEVICE && (success_expected || !ok.count(code))) {
		c->req_fault = 0;
		st("check.fault-reply");
		return;
	}
	if (success_expected)
		violation(r.op == C_OPEN_DEVICE && c->state == ENABLED ? "dev.refused"
			  : r.op == C_SWITCH                              ? "switch.refused"
									  : "proto.refused",
			  "%s of client %d (%s, \"%.60s\" %d) was refused with %d (%s) but had to succeed", opname(r.op), c->id,
			  stname[c->state], r.path.c_str(), r.arg, code, strerror(code));
	if (!ok.count(code)) {
		std::string l;
		for (int e : ok) l += std::string(" ") + strerror(e);
		violation("proto.errcode", "%s of client %d (%s, \"%.60s\" %d) was refused with %d (%s), expected%s", opname(r.op), c->id,
			  stname[c->state], r.path.c_str(), r.arg, code, strerror(code), l.c_str());
	}
}

inline void on_device_opened(Client *c, Req &r, int id) {
	st("reply.device_opened");
	if (c->sfds.empty()) violation("dev.no-fd", "DEVICE_OPENED(%d) to client %d without a descriptor", id, c->id);
	uint64_t ino = c->sfds.front();
	c->sfds.pop_front();
	if (c->state != ENABLED)
		violation("open.not-holder", "client %d (%s) was given device %d without holding the seat", c->id, stname[c->state], id);
	std::string rp;
	int e = fs_resolve(r.path, rp);
	if (e) violation("open.bad-path", "client %d was given a device for unusable path %.80s", c->id, r.path.c_str());
	if (!path_type_ok(rp))
		violation("open.bad-path", "client %d was given a descriptor for %.80s (%s), not a seat device", c->id, r.path.c_str(),
			  rp.c_str());
	auto it = ofds.find(ino);
	if (it == ofds.end()) violation("dev.wrong-fd", "descriptor sent for %s is not a device", rp.c_str());
	Ofd &o = it->second;
	if (o.path != rp) violation("dev.wrong-fd", "client %d asked for %s and was given %s", c->id, rp.c_str(), o.path.c_str());
	if (id <= 0) violation("dev.id", "device id %d is not positive", id);
	int oid = 0;
	Dev *d = dev_by_path(c, rp, &oid);
	if (d) {
		st("dev.reopen");
		if (oid != id) violation("dev.id", "re-open of %s returned id %d instead of %d", rp.c_str(), id, oid);
		if (d->ino != ino) violation("dev.reopen", "re-open of %s returned a different open device", rp.c_str());
		d->ref++;
	} else {
		if (c->devs.count(id))
			violation("dev.id", "id %d for %s is already used for %s", id, rp.c_str(), c->devs[id].path.c_str());
		if (c->devs.size() >= 128) violation("dev.limit", "client %d was given a 129th device", c->id);
		if (o.owner != c->id || o.owner_epoch != c->epoch)
			violation("dev.shared", "client %d was given an open device %s of another session", c->id, ofd_str(o));
		if (o.needs_revoke() && !o.working() && !relaxed && !c->blocked)
			violation("dev.dead", "client %d was given %s which does not work", c->id, ofd_str(o));
		c->devs[id] = Dev{rp, 1, ino};
	}
	o.delivered = true;
	if (o.server_fds <= 0 && !c->blocked) violation("dev.not-kept", "the daemon keeps no descriptor of %s", ofd_str(o));
}

// a session number is used up when the seat is opened, told or not
inline void note_join(Client *c) {
	if (c->joined || c->session != -1 || c->req.empty() || c->state != NOSEAT) return;
	if (c->req.front().op != C_OPEN_SEAT && !(c->unseen() && c->has_unreplied(C_OPEN_SEAT))) return;
	// it is not known when, or whether, a request behind others was served
	if (c->req.front().op != C_OPEN_SEAT || c->rbuf.size() >= 4) numbers_unsure = true;
	c->joined = true;
	c->session = vtbound ? con.fg : session_base + join_counter++;
}

inline void on_reply(Client *c, int op, const std::string &body) {
	if (c->req.empty()) violation("proto.unrequested", "%s sent to client %d which asked nothing", opname(op), c->id);
	Req r = c->req.front();
	st("reply");
	if (head_illegal(c))
		violation(r.op == -1 ? "proto.malformed-accepted" : "proto.illegal-accepted",
			  "%s sent to client %d whose next request (%s in state %s) had to end the connection", opname(op), c->id,
			  r.op == -1 ? "malformed" : opname(r.op), stname[c->state]);
	auto size = [&](size_t n) {
		if (body.size() != n) violation("proto.framing", "%s to client %d has size %zu", opname(op), c->id, body.size());
	};
	auto expect = [&](int req) {
		if (r.op != req) violation("proto.order", "%s sent to client %d whose next request is %s", opname(op), c->id, opname(r.op));
	};
	switch (op) {
	case S_ERROR: {
		size(4);
		int code;
		memcpy(&code, body.data(), 4);
		tr("  -> client %d: ERROR %d (%s) for %s", c->id, code, strerror(code), opname(r.op));
		if (r.op == C_OPEN_SEAT || r.op == C_CLOSE_SEAT || r.op == C_PING) {
			if (!relaxed) violation("proto.refused", "%s of client %d refused with an error message", opname(r.op), c->id);
		}
		on_error_reply(c, r, code);
		break;
	}
	case S_SEAT_OPENED: {
		expect(C_OPEN_SEAT);
		uint16_t l;
		if (body.size() < 2) violation("proto.framing", "SEAT_OPENED too short");
		memcpy(&l, body.data(), 2);
		if (body.size() != 8 || l != 6 || memcmp(body.data() + 2, "seat0", 6) != 0)
			violation("proto.framing", "SEAT_OPENED with wrong name (len %u, size %zu)", l, body.size());
		if (vtbound && !c->blocked)
			for (auto a : clients)
				if (a != c && a->live() && a->state == ENABLED && !leaving(a) && !a->blocked && !relaxed)
					violation("vt.second-open", "client %d opened the VT-bound seat while client %d is enabled", c->id, a->id);
		note_join(c);
		c->joined = true;
		c->state = NEW;
		if (vtbound) vt_used.insert(c->session);
		break;
	}
	case S_SEAT_CLOSED: {
		expect(C_CLOSE_SEAT);
		size(0);
		check_client_revoked("after closing its seat", c, c->epoch);
		for (auto &x : ofds)
			if (x.second.is_dev() && x.second.owner == c->id && x.second.owner_epoch == c->epoch && x.second.server_fds > 0 &&
			    !c->blocked)
				violation("leak.device-fd", "client %d closed its seat but the daemon still has %s open", c->id, ofd_str(x.second));
		session_ended(c);
		check_vt_released(c, "seat closed");
		break;
	}
	case S_DEVICE_OPENED: {
		expect(C_OPEN_DEVICE);
		size(4);
		int id;
		memcpy(&id, body.data(), 4);
		tr("  -> client %d: DEVICE_OPENED %d", c->id, id);
		on_device_opened(c, r, id);
		break;
	}
	case S_DEVICE_CLOSED: {
		expect(C_CLOSE_DEVICE);
		size(0);
		auto it = c->devs.find(r.arg);
		if (it == c->devs.end()) violation("dev.bad-close", "close of unknown device id %d of client %d succeeded", r.arg, c->id);
		if (--it->second.ref == 0) {
			Dev d = it->second;
			int id = it->first;
			c->devs.erase(it);
			if (!c->blocked) check_dev_gone(c, d, id);
		} else {
			auto o = ofds.find(it->second.ino);
			if (!c->blocked && (o == ofds.end() || o->second.server_fds == 0))
				violation("dev.refcount", "device %d of client %d was closed although it is still open %d times", r.arg, c->id,
					  it->second.ref);
			if (!c->blocked && c->state == ENABLED && o->second.type == N_DRM && !o->second.master && !relaxed)
				violation("dev.refcount", "device %d of client %d lost DRM master although it is still open", r.arg, c->id);
			st("dev.ref-dec");
		}
		break;
	}
	case S_SWITCHED: {
		expect(C_SWITCH);
		size(0);
		State was = c->state;
		if (was != ENABLED && was != PENDING)
			violation("switch.not-holder", "switch request of client %d (%s) succeeded", c->id, stname[was]);
		if (r.arg <= 0 && !c->unsure) violation("switch.bad-number", "switch of client %d to session %d succeeded", c->id, r.arg);
		if (!vtbound && numbers_unsure) break;
		if (r.arg == c->session) {
			if (!vtbound && was == PENDING && !c->blocked)
				violation("switch.self", "client %d was disabled by a switch to its own session", c->id);
			if (r.activated && !relaxed && !c->blocked) violation("switch.self", "client %d switching to its own session made the kernel switch", c->id);
			break;
		}
		if (!vtbound) {
			Client *t = nullptr;
			for (auto x : clients)
				if ((x->member() || x->joined) && !x->gone && x->session == r.arg) t = x;
			if (!t && !relaxed) {
				// it may have left meanwhile
				bool was_known = false;
				for (auto x : clients)
					if (x->session == r.arg) was_known = true;
				if (!was_known || !c->blocked)
					violation("switch.unknown", "switch of client %d to unknown session %d succeeded", c->id, r.arg);
			}
			if (was != PENDING && !relaxed)
				violation("switch.no-disable", "switch of client %d to session %d accepted without telling it to disable", c->id,
					  r.arg);
			if (c->blocked) switch_target = -1;
			else if (t && !relaxed) {
				switch_target = t->id;
				switch_taint = false;
				for (auto x : clients)
					if (x != c && x->live() && x->state == ENABLED && !x->left && !x->bad && !x->blocked && !c->blocked)
						violation("switch.target", "inconsistent: client %d enabled while %d switches", x->id, c->id);
			}
		} else if (!r.activated && !relaxed && !c->blocked && r.arg <= 63)
			violation("vt.no-activate", "switch of client %d to VT %d did not reach the kernel", c->id, r.arg);
		break;
	}
	case S_SEAT_DISABLED:
		expect(C_DISABLE_SEAT);
		size(0);
		c->ack_queued = false;
		if (c->early) {
			c->early = false;
			break;
		}
		if (c->state != PENDING)
			violation("excl.bad-ack", "disable of client %d acknowledged in state %s", c->id, stname[c->state]);
		c->state = DISABLED;
		break;
	case S_PONG:
		expect(C_PING);
		size(0);
		break;
	default: violation("proto.opcode", "unknown message %#x sent to client %d", op, c->id);
	}
	c->req.pop_front();
	note_state(opname(op));
}

inline void on_sent(int fd, const char *data, size_t n, const std::vector<int> &sfd) {
	auto it = by_sfd.find(fd);
	if (it == by_sfd.end()) return;
	Client *c = it->second;
	for (int x : sfd) {
		uint64_t ino = fd_ino(x);
		c->sfds.push_back(ino);
		auto o = ofds.find(ino);
		if (o != ofds.end()) o->second.delivered = true;
	}
	c->sbuf.append(data, n);
	if (c->window > 0) {
		c->window -= (long)n;
		if (c->window < 0) c->window = 0;
	}
	st("bytes-sent", n);
	while (c->sbuf.size() >= 4) {
		uint16_t op, sz;
		memcpy(&op, c->sbuf.data(), 2);
		memcpy(&sz, c->sbuf.data() + 2, 2);
		if (c->sbuf.size() < 4u + sz) break;
		std::string body = c->sbuf.substr(4, sz);
		c->sbuf.erase(0, 4u + sz);
		tr("server -> client %d (%s): %s", c->id, stname[c->state], opname(op));
		if (op == S_ENABLE || op == S_DISABLE) {
			if (sz) violation("proto.framing", "event %s with size %u", opname(op), sz);
			if (op == S_ENABLE) on_enable(c);
			else on_disable(c);
			note_state(opname(op));
		} else on_reply(c, op, body);
	}
	// nothing left to send for what we know: unblocked once the model is in sync
}

inline void parse(Client *c) {
	while (!c->bad && c->rbuf.size() >= 4) {
		uint16_t op, sz;
		memcpy(&op, c->rbuf.data(), 2);
		memcpy(&sz, c->rbuf.data() + 2, 2);
		bool sized = true;
		if (op < 1 || op > 7) sized = false;
		else if (op == C_CLOSE_DEVICE || op == C_SWITCH) sized = sz == 4;
		else if (op == C_OPEN_DEVICE) sized = sz >= 3 && sz <= 2 + 256;
		else sized = sz == 0;
		if (!sized || sz > 252) c->maybad = true;
		if (c->rbuf.size() < 4u + sz) break;
		Req r;
		r.op = op;
		std::string body = c->rbuf.substr(4, sz);
		c->rbuf.erase(0, 4u + sz);
		if (!sized) r.op = -1;
		else if (op == C_CLOSE_DEVICE || op == C_SWITCH) memcpy(&r.arg, body.data(), 4);
		else if (op == C_OPEN_DEVICE) {
			uint16_t l;
			memcpy(&l, body.data(), 2);
			if (l != sz - 2 || l == 0 || strnlen(body.data() + 2, l) != (size_t)l - 1) r.op = -1;
			else r.path = body.data() + 2;
		}
		if (r.op == -1) {
			c->bad = c->maybad = true;
			tr("server <- client %d: MALFORMED op %u size %u", c->id, op, sz);
			st("recv.malformed");
		} else {
			tr("server <- client %d: %s %s%d", c->id, opname(op), r.path.c_str(), r.arg);
			st((std::string("recv.") + opname(op)).c_str());
		}
		if (c->unseen() && r.op == C_OPEN_SEAT) numbers_unsure = true;
		c->req.push_back(r);
		c->requests++;
	}
}
// A call fails once. Whatever it was for may fail, nothing else: the monitors
// stay strict unless the console or the event loop itself is concerned.
inline void on_single_fault(const char *name, int err, int fd) {
	std::string n = name;
	if (err == EINTR || n == "accept") { st("fault.transparent"); return; }
	bool opening = false;
	if (cur && !cur->gone)
		for (auto &r : cur->req) opening |= r.op == C_OPEN_DEVICE;
	if ((n == "open" || n == "realpath" || n == "dup" || n == "malloc" || n == "calloc") && opening) {
		cur->req_fault = err;
		st("fault.of-request");
		return;
	}
	auto it = fd >= 0 ? by_sfd.find(fd) : by_sfd.end();
	if ((n == "recvmsg" || n == "getsockopt" || n == "fcntl") && it != by_sfd.end()) {
		it->second->maybad = true;
		st("fault.of-client");
		return;
	}
	st("fault.relaxed");
	relaxed = true;
}
inline void on_recv(int fd, const char *data, size_t n, const std::vector<int> &passed) {
	auto it = by_sfd.find(fd);
	if (it == by_sfd.end()) return;
	Client *c = it->second;
	cur = c;
	c->rbuf.append(data, n);
	c->pushed += (int)passed.size();
	if (!passed.empty()) st("recv.fds", passed.size());
	parse(c);
	note_state("recv");
}

inline void on_closing(int fd, const FdInfo &fi) {
	if (fi.kind == F_CLIENT) {
		auto it = by_sfd.find(fd);
		if (it == by_sfd.end()) return;
		Client *c = it->second;
		by_sfd.erase(it);
		c->gone = true;
		tr("server closes client %d (%s)", c->id, stname[c->state]);
		st("server-closes-client");
		if (!may_drop(c))
			violation("proto.disconnect", "client %d (%s) was disconnected without a reason; next request: %s", c->id,
				  stname[c->state], c->req.empty() ? "none" : opname(c->req.front().op));
		if (c->state == NOSEAT && c->has_unreplied(C_OPEN_SEAT) && (c->session == -1 || c->ever_blocked)) numbers_unsure = true;
		// it may have been added to the seat and dropped before its answer was sent
		if (vtbound && c->has_unreplied(C_OPEN_SEAT)) vt_used.insert(con.fg);
		note_state("closed");
	}
}
inline void on_shut(int fd, int) {
	auto it = by_sfd.find(fd);
	if (it == by_sfd.end()) return;
	it->second->send_failed = true;
}
inline void on_opening(const std::string &path, int flags) {
	bool tty = path.compare(0, 8, "/dev/tty") == 0;
	st("open");
	if (tty) {
		if (!(flags & O_NOCTTY)) violation("open.flags", "tty %s opened without O_NOCTTY", path.c_str());
		return;
	}
	// on whose behalf?
	Client *who = nullptr;
	Req *rq = nullptr;
	std::string why = "no client asked for it";
	for (int pass = 0; pass < 2 && !who; pass++)
		for (auto c : clients) {
			if ((pass == 0) != (c == cur) || c->gone) continue;
			for (auto &r : c->req) {
				if (r.op != C_OPEN_DEVICE) {
					if (!c->unseen()) break;
					continue;
				}
				std::string rp;
				if (r.served_open && c->unseen()) continue;
				if (fs_resolve(r.path, rp) != 0 || rp != path) {
					why = "the requested path resolves elsewhere";
					if (!c->unseen()) break;
					continue;
				}
				if (c->state != ENABLED && !c->unseen()) {
					why = "the asking client does not hold the seat";
					break;
				}
				who = c;
				rq = &r;
				break;
			}
			if (who) break;
		}
	if (!who) violation("open.unauthorised", "daemon opens %s but %s", path.c_str(), why.c_str());
	if (!path_type_ok(path)) violation("open.bad-path", "daemon opens %s, not a seat device, for client %d", path.c_str(), who->id);
	int need = O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK;
	if ((flags & need) != need || (flags & O_ACCMODE) != O_RDWR || (flags & (O_CREAT | O_TRUNC)))
		violation("open.flags", "device %s opened with flags 0%o", path.c_str(), flags);
	rq->served_open = true;
	cur = who;
	st("check.open");
}
inline void on_opened(Ofd &o, int) {
	if (!o.is_dev() || !cur) return;
	o.owner = cur->id;
	// a blocked client may have closed its seat in the replies still queued
	o.owner_epoch = cur->epoch;
	if (cur->blocked)
		for (auto &r : cur->req) {
			if (r.op == C_CLOSE_SEAT) o.owner_epoch++;
			if (r.op == C_OPEN_DEVICE && r.served_open) break;
		}
}
inline void on_tty_ioctl(int vt, unsigned long req, long arg, int) {
	if (!vtbound) {
		violation("vt.touched", "console ioctl %#lx on a seat that is not VT-bound", req);
	}
	Vt &v = con.vt(vt);
	if (req == VT_RELDISP && arg == 1 && v.newvt >= 0 && v.mode == VT_PROCESS) {
		st("check.vt-release");
		for (auto a : clients)
			if (a->live() && a->state == ENABLED && !leaving(a) && !a->blocked && !relaxed)
				suspect(a, "vt.release-early", "VT release acknowledged before client %d was told to disable", a->id);
		check_all_revoked("when the VT release is acknowledged", nullptr);
	}
	if (req == VT_RELDISP && arg == 0 && v.newvt >= 0)
		violation("vt.release-refused", "VT release refused");
	if (req == VT_ACTIVATE) {
		bool ok = false;
		for (auto c : clients)
			if (!c->gone)
				for (auto &r : c->req) {
					if (r.op == C_SWITCH && r.arg == arg && (c->state == ENABLED || c->unseen()) && !r.activated) {
						r.activated = ok = true;
						break;
					}
					if (!c->unseen()) break;
				}
		if (!ok) violation("vt.bad-activate", "daemon asks for VT %ld which no enabled session requested", arg);
		st("check.vt-activate");
	}
	if ((req == KDSETMODE && arg == KD_TEXT) || (req == KDSKBMODE && arg != K_OFF)) {
		for (auto a : clients)
			if (a->live() && a->state == ENABLED && !leaving(a) && a->session == vt && !relaxed && !a->blocked && !stopping)
				suspect(a, "vt.disturbed", "VT %d of the enabled client %d is put back to text/keyboard", vt, a->id);
	}
	if ((req == KDSETMODE || req == KDSKBMODE || req == VT_SETMODE) && !relaxed && !vt_used.count(vt)) {
		bool joining = false;
		for (auto c : clients)
			if (c->live() && c->has_unreplied(C_OPEN_SEAT)) joining = true;
		if (joining && vt == con.fg) vt_used.insert(vt);
		else violation("vt.other", "VT %d, which no session uses, is changed (ioctl %#lx)", vt, req);
	}
}

inline void check_fds(bool idle) {
	// every descriptor has a reason
	std::map<uint64_t, int> want;
	int blocked = 0;
	for (auto c : clients) {
		if (c->gone) continue;
		if (c->blocked || c->stalled) blocked++;
		for (auto &d : c->devs) want[d.second.ino] = 1;
	}
	int tty = 0;
	for (auto &f : fds) {
		if (f.second.kind == F_DEV) {
			if (blocked) continue;
			auto w = want.find(f.second.ino);
			if (w == want.end() || --w->second < 0) {
				auto o = ofds.find(f.second.ino);
				violation("leak.device-fd", "descriptor %d (%s) is held for no open device", f.first,
					  o == ofds.end() ? "?" : ofd_str(o->second));
			}
		} else if (f.second.kind == F_CLIENT) {
			bool ok = by_sfd.count(f.first) > 0;
			if (!ok) violation("leak.client-fd", "descriptor %d of a client that is gone", f.first);
		} else if (f.second.kind == F_PASSED) {
			Client *c = f.second.client >= 0 && f.second.client < (int)clients.size() ? clients[f.second.client] : nullptr;
			if (!c || c->gone) violation("leak.passed-fd", "descriptor %d pushed by client %d outlives it", f.first, f.second.client);
		} else if (f.second.kind == F_TTY) tty++;
	}
	if (tty > 2) violation("leak.tty-fd", "%d console descriptors left open", tty);
	st("check.fds");
	(void)idle;
}

// No input is pending for the daemon: everything it owes must have been done.
inline void quiescent() {
	st("quiescent");
	Client *holder = nullptr;
	int pending = 0, waiting = 0;
	bool uncertain = false;
	for (auto c : clients) {
		if (c->gone || !c->accepted) continue;
		if (!c->stalled && c->window != 0) c->blocked = false;
		if (c->stalled && c->blocked) {
			uncertain = true;
			continue;
		}
		if (c->left && !c->half) violation("life.not-removed", "client %d disconnected but is still served", c->id);
		if (c->left) violation("life.not-removed", "client %d shut down its connection but is still served", c->id);
		if (c->bad) violation("proto.malformed-accepted", "client %d sent a malformed message but is still connected", c->id);
		if (c->send_failed) violation("life.not-removed", "sending to client %d failed but it is still connected", c->id);
		if (!c->req.empty()) {
			if (head_illegal(c))
				violation("proto.illegal-accepted", "client %d made an illegal request (%s) but is still connected", c->id,
					  opname(c->req.front().op));
			violation(c->ever_blocked ? "slow.stuck" : "proto.unanswered",
				  "request %s of client %d is never answered", opname(c->req.front().op), c->id);
		}
		if (!c->sbuf.empty()) violation(c->ever_blocked ? "slow.stuck" : "proto.framing", "incomplete message left for client %d", c->id);
		if (!c->sfds.empty()) violation("dev.stray-fd", "client %d was sent a descriptor without a message", c->id);
		if (c->state == ENABLED) {
			if (holder) violation("excl.enable", "clients %d and %d are both enabled", holder->id, c->id);
			holder = c;
		}
		if (c->state == PENDING) pending++;
		if (c->waiting() && (!vtbound || c->session == con.fg)) waiting++;
	}
	if (vtbound && !relaxed)
		for (auto &kv : con.vts)
			if (kv.second.newvt >= 0 && kv.second.mode == VT_PROCESS)
				violation("vt.no-release-ack", "switch away from VT %d is never acknowledged", kv.first);
	if (uncertain) {
		st("quiescent-uncertain");
		return;
	}
	for (auto c : clients) {
		if (c->gone || !c->accepted) continue;
		for (auto &d : c->devs) {
			auto o = ofds.find(d.second.ino);
			if (o == ofds.end() || o->second.server_fds <= 0)
				violation("dev.not-kept", "the daemon no longer has device %d (%s) of client %d open", d.first,
					  d.second.path.c_str(), c->id);
			if (c->state == ENABLED && !relaxed && o->second.type == N_DRM && !o->second.master)
				violation("rev.no-master", "at rest: enabled client %d has no master on %s", c->id, ofd_str(o->second));
		}
	}
	if (holder && pending) violation("excl.enable", "client %d is enabled while another is still disabling", holder->id);
	if (!relaxed) {
		if (!holder && !pending && waiting) {
			for (auto c : clients)
				if (!c->gone && c->accepted && c->waiting() && (!vtbound || c->session == con.fg))
					violation(c->ever_blocked ? "slow.lost-enable" : vtbound ? "vt.idle" : "switch.idle",
						  "nobody holds the seat but client %d (%s, session %d) is kept waiting", c->id, stname[c->state],
						  c->session);
		}
		st("check.idle");
	}
	// devices
	for (auto &x : ofds) {
		Ofd &o = x.second;
		if (!o.is_dev() || o.owner < 0 || !unrevoked(o)) continue;
		Client *c = clients[o.owner];
		if (c->gone || c->epoch != o.owner_epoch || c->state != ENABLED)
			violation("rev.not-revoked", "at rest: %s works but its session does not hold the seat (%s)", ofd_str(o),
				  c->gone ? "gone" : stname[c->state]);
		bool listed = false;
		for (auto &d : c->devs)
			if (d.second.ino == o.ino) listed = true;
		if (!listed && !relaxed) violation("rev.close", "at rest: %s works but is not open in its session", ofd_str(o));
	}
	if (!relaxed) check_fds(false);
	else check_fds(false);
	if (vtbound && !relaxed) {
		if (holder && holder->session != con.fg)
			violation("vt.enable-background", "at rest: client %d of VT %d is enabled while VT %d is in the foreground", holder->id,
				  holder->session, con.fg);
		for (auto &kv : con.vts) {
			Vt &v = kv.second;
			if (v.newvt >= 0 && v.mode == VT_PROCESS)
				violation("vt.no-release-ack", "switch away from VT %d is never acknowledged", kv.first);
			if (v.acq_unacked && v.mode == VT_PROCESS && con.fg == kv.first)
				violation("vt.no-acquire-ack", "acquire of VT %d is never acknowledged", kv.first);
			bool owned = false;
			for (auto c : clients)
				if (!c->gone && c->accepted && c->member() && c->session == kv.first) owned = true;
			if (!owned && (v.kd != KD_TEXT || (v.kb != K_UNICODE && v.kb != K_XLATE)))
				violation("vt.not-restored", "VT %d has no session any more but kd mode %d kb mode %d", kv.first, v.kd, v.kb);
			if (holder && holder->session == kv.first && (v.kd != KD_GRAPHICS || v.kb != K_OFF || v.mode != VT_PROCESS))
				violation("vt.not-setup", "VT %d of enabled client %d: kd %d kb %d mode %d", kv.first, holder->id, v.kd, v.kb, v.mode);
		}
		st("check.vt-rest");
	}
	note_state("q");
}

inline void install() {
	hk = Hooks();
	hk.recv = on_recv;
	hk.sent = on_sent;
	hk.let_go = on_let_go;
	hk.closing = on_closing;
	hk.shut = on_shut;
	hk.opening = on_opening;
	hk.opened = on_opened;
	hk.tty_ioctl = on_tty_ioctl;
	hk.send_left = [](int fd, size_t left) {
		auto it = by_sfd.find(fd);
		if (it != by_sfd.end()) it->second->out_left = left;
	};
	hk.send_blocked = [](int fd) {
		auto it = by_sfd.find(fd);
		if (it == by_sfd.end()) return;
		it->second->blocked = it->second->ever_blocked = true;
		note_join(it->second);
		st("send-blocked");
	};
	hk.send_failed = [](int fd, int) {
		auto it = by_sfd.find(fd);
		if (it == by_sfd.end()) return;
		it->second->send_failed = true;
		note_join(it->second);
	};
	hk.window = [](int fd) -> long {
		auto it = by_sfd.find(fd);
		return it == by_sfd.end() ? -1 : it->second->window;
	};
}
} // namespace mon
