// libseat's logind backend, with the real libsystemd, against a model system
// bus and logind running in the same process: whenever the client side waits,
// the model side acts.
#include <systemd/sd-bus.h>
#include <sys/sysmacros.h>

#include "io.hpp"
extern "C" {
#include "libseat.h"
}
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
using namespace io;

#define LOGIN "org.freedesktop.login1"
#define SESSION "org.freedesktop.login1.Session"

// ---------------------------------------------------------------- the model
enum EffKind { VALUE, ASK, PAUSE };
struct Effect { // of a signal that was put on the client's connection
	EffKind kind;
	bool v = false, answered = false, applied = false, completed = false;
	uint32_t maj = 0, min = 0;
};
struct Match {
	std::map<std::string, std::string> f;
};
struct Api { // the libseat call in progress
	std::string name; // empty: none
	uint32_t a = 0, b = 0;
	int requests = 0;
	bool ok = false;
	int err = 0; // expected errno if known
	int fdsig = 0;
	dev_t rdev = 0;
};
struct World {
	std::string sid, seat, spath, seatpath, other_spath;
	int lfd = -1;
	sd_bus *srv = nullptr;
	bool accepted = false, dead = false, active = false, controlled = false, want = false;
	std::string type;
	std::vector<Match> matches;
	std::deque<Effect> eff;    // not yet known to be fully processed
	bool reported_any = false, reported = false, initial_known = false, initial_v = false;
	bool open_done = false, in_open = false, closing = false, closed = false;
	int callbacks = 0;         // ever
	int callbacks_in_call = 0;
	bool in_dispatch = false, in_cb = false, in_pump = false, in_handler = false;
	uint64_t requests = 0, die_at = 0;
	std::string fail_member; // request that gets an error during open
	int fail_mode = 0;
	int pm_sig = 0, pm_err = 0;
	int idle_waits = 0;
	int dispatch_timeout = 0;  // of the call in progress
	bool waited = false;       // it did wait, or was interrupted
	int pings = 0;
	int sig_budget = 0;
	std::map<std::string, int> seen;
	int nextsig = 0;
	std::map<uint64_t, int> taken; // maj<<32|min
};
static World W;
static Api A;
static struct libseat *seat;

static void die(const char *why) {
	if (W.dead) return;
	W.dead = true;
	tr("bus: connection lost (%s)", why);
	st("bus.died");
	if (W.srv) {
		sd_bus_close(W.srv);
		sd_bus_unref(W.srv);
		W.srv = nullptr;
	}
	if (W.lfd >= 0) {
		close(W.lfd);
		W.lfd = -1;
	}
}

static bool match_passes(const char *sender_wk, const char *path, const char *iface, const char *member) {
	for (auto &m : W.matches) {
		auto is = [&](const char *k, const char *v) { return !m.f.count(k) || m.f[k] == v; };
		if (!is("type", "signal")) continue;
		if (m.f.count("sender") && m.f["sender"] != sender_wk) continue;
		if (m.f.count("path_namespace")) {
			std::string ns = m.f["path_namespace"], p = path;
			if (p != ns && p.compare(0, ns.size() + 1, ns + "/") != 0) continue;
		}
		if (is("path", path) && is("interface", iface) && is("member", member)) return true;
	}
	return false;
}
// sends a prepared signal if some match rule lets it through
static bool send_signal(sd_bus_message *m, bool from_logind, const char *path, const char *iface, const char *member) {
	bool pass = W.srv && match_passes(from_logind ? LOGIN : "org.example.Other", path, iface, member);
	if (pass) {
		sd_bus_message_set_sender(m, from_logind ? ":1.1" : ":1.66");
		int r = sd_bus_send(W.srv, m, nullptr);
		if (r < 0) broken("sd_bus_send: %s", strerror(-r));
		st("signal.delivered");
	} else st("signal.filtered");
	sd_bus_message_unref(m);
	return pass;
}
static sd_bus_message *new_signal(const char *path, const char *iface, const char *member) {
	sd_bus_message *m = nullptr;
	int r = sd_bus_message_new_signal(W.srv, &m, path, iface, member);
	if (r < 0) broken("new_signal: %s", strerror(-r));
	return m;
}
static void append_noise(sd_bus_message *m, int k) {
	switch (k) {
	case 0: sd_bus_message_append(m, "{sv}", "IdleHint", "b", rng.pct(50)); break;
	case 1: sd_bus_message_append(m, "{sv}", "IdleSinceHint", "t", (uint64_t)rng.next()); break;
	case 2: sd_bus_message_append(m, "{sv}", "User", "(uo)", 1000u, "/org/freedesktop/login1/user/_1000"); break;
	case 3: sd_bus_message_append(m, "{sv}", "Activ", "s", "Active"); break;
	case 4: sd_bus_message_append(m, "{sv}", "Things", "a(ss)", 2, "Active", "Active", "a", "b"); break;
	case 5: sd_bus_message_append(m, "{sv}", "State", "s", rng.pct(50) ? "active" : "online"); break;
	default: sd_bus_message_append(m, "{sv}", "LockedHint", "b", rng.pct(50));
	}
}
// a PropertiesChanged signal; how: 0 value, 1 invalidated, 2 both, 3 without Active
static void emit_props(const char *path, const char *iface, int how, bool v, bool from_logind, bool counts) {
	sd_bus_message *m = new_signal(path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
	sd_bus_message_append(m, "s", iface);
	sd_bus_message_open_container(m, 'a', "{sv}");
	int n = rng.range(0, 2);
	for (int i = 0; i < n; i++) append_noise(m, rng.range(0, 6));
	if (how == 0 || how == 2) sd_bus_message_append(m, "{sv}", "Active", "b", (int)v);
	n = rng.range(0, 2);
	for (int i = 0; i < n; i++) append_noise(m, rng.range(0, 6));
	sd_bus_message_close_container(m);
	sd_bus_message_open_container(m, 'a', "s");
	if (rng.pct(30)) sd_bus_message_append(m, "s", "Scope");
	if (how == 1 || how == 2) sd_bus_message_append(m, "s", "Active");
	if (rng.pct(30)) sd_bus_message_append(m, "s", "Display");
	sd_bus_message_close_container(m);
	bool sent = send_signal(m, from_logind, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
	tr("logind: PropertiesChanged %s %s how %d active %d from %d%s", path, iface, how, v, from_logind, sent ? "" : " (filtered)");
	if (sent && counts) {
		if (how == 0 || how == 2) W.eff.push_back(Effect{VALUE, v});
		if (how == 1 || how == 2) W.eff.push_back(Effect{ASK});
	}
}
static void set_model_active(bool v) {
	W.active = v;
	W.want = v;
	int how = rng.pct(60) ? 0 : rng.pct(85) ? 1 : 2;
	emit_props(W.spath.c_str(), SESSION, how, v, true, true);
	st(how == 0 ? "logind.active-value" : "logind.active-invalidated");
}
static void emit_pause(int kind, uint32_t maj, uint32_t min, const char *path, bool counts, bool from_logind) {
	static const char *names[] = {"pause", "force", "gone"};
	sd_bus_message *m = new_signal(path, SESSION, "PauseDevice");
	sd_bus_message_append(m, "uus", maj, min, names[kind]);
	bool sent = send_signal(m, from_logind, path, SESSION, "PauseDevice");
	tr("logind: PauseDevice %u:%u %s on %s%s", maj, min, names[kind], path, sent ? "" : " (filtered)");
	if (!sent) return;
	st((std::string("logind.") + names[kind]).c_str());
	if (counts && kind == 0) {
		Effect e{PAUSE, false};
		e.maj = maj;
		e.min = min;
		W.eff.push_back(e);
		W.want = false;
	}
}
static const char *devs[] = {"/dev/null", "/dev/zero", "/dev/full", "/dev/random", "/dev/urandom"};
static void some_device(uint32_t &maj, uint32_t &min) {
	if (!W.taken.empty() && rng.pct(70)) {
		auto it = W.taken.begin();
		std::advance(it, rng.below((uint32_t)W.taken.size()));
		maj = (uint32_t)(it->first >> 32);
		min = (uint32_t)it->first;
	} else {
		maj = 13;
		min = 64 + rng.below(40);
	}
}
static void emit_random() {
	if (!W.srv || W.dead || W.sig_budget <= 0) return;
	W.sig_budget--;
	uint32_t maj, min;
	some_device(maj, min);
	int k = rng.range(0, 99);
	if (k < 50) set_model_active(rng.pct(85) ? !W.active : W.active);
	else if (k < 64 && W.controlled) emit_pause(0, maj, min, W.spath.c_str(), true, true);
	else if (k < 72 && W.controlled) emit_pause(rng.range(1, 2), maj, min, W.spath.c_str(), true, true);
	else if (k < 76) emit_props(W.other_spath.c_str(), SESSION, rng.range(0, 2), rng.pct(50), true, false);
	else if (k < 80) emit_props(W.spath.c_str(), rng.pct(50) ? "org.freedesktop.login1.Seat" : "org.example.Session", rng.range(0, 2), !W.active, true, false);
	else if (k < 83) emit_props(W.spath.c_str(), SESSION, rng.range(0, 2), !W.active, false, false);
	else if (k < 86) emit_pause(0, maj, min, W.other_spath.c_str(), false, true);
	else if (k < 89) emit_pause(0, maj, min, W.spath.c_str(), false, false);
	else if (k < 92) emit_props(W.spath.c_str(), SESSION, 3, false, true, false);
	else if (k < 95) { // unknown member
		sd_bus_message *m = new_signal(W.spath.c_str(), SESSION, rng.pct(50) ? "Lock" : "ResumeDevice");
		send_signal(m, true, W.spath.c_str(), SESSION, "Lock");
	} else { // badly formed
		bool props = rng.pct(50);
		const char *iface = props ? "org.freedesktop.DBus.Properties" : SESSION, *mem = props ? "PropertiesChanged" : "PauseDevice";
		sd_bus_message *m = new_signal(W.spath.c_str(), iface, mem);
		int j = rng.range(0, 4);
		if (props) {
			if (j == 0) sd_bus_message_append(m, "s", SESSION);
			else if (j == 1) sd_bus_message_append(m, "u", 4u);
			else if (j == 2) sd_bus_message_append(m, "sa{sv}", SESSION, 1, "Active", "u", (uint32_t)!W.active);
			else if (j == 3) sd_bus_message_append(m, "sa{sv}as", SESSION, 1, "Active", "s", "true", 0);
			else sd_bus_message_append(m, "sas", SESSION, 1, "Active");
		} else {
			if (j == 0) sd_bus_message_append(m, "uu", maj, min);
			else if (j == 1) sd_bus_message_append(m, "sss", "a", "b", "pause");
			else if (j == 2) sd_bus_message_append(m, "uus", maj, min, "");
			else if (j == 3) sd_bus_message_append(m, "uus", maj, min, "paus");
			else sd_bus_message_append(m, "s", "pause");
		}
		tr("logind: malformed %s %d", mem, j);
		send_signal(m, true, W.spath.c_str(), iface, mem);
		st("logind.malformed");
	}
}

// ---------------------------------------------------------------- oracle
// What the listener must be told next, given what was delivered: 1 enable, 0
// disable, -1 nothing, -2 unknown until logind is asked for the property.
static int next_callback() {
	if (!W.initial_known) return -1;
	if (!W.reported_any) return W.initial_v;
	bool cur = W.reported;
	for (auto &e : W.eff) {
		if (e.applied) continue;
		if (e.kind == ASK && !e.answered) return -2;
		bool v = e.kind == PAUSE ? false : e.v;
		if (v != cur) return v;
	}
	return -1;
}
static bool work_left() {
	if (next_callback() != -1) return true;
	for (auto &e : W.eff)
		if (e.kind == PAUSE && !e.completed) return true;
	return false;
}
// every effect before index i changes nothing any more
static void on_callback(bool enable) {
	W.callbacks++;
	W.callbacks_in_call++;
	st(enable ? "cb.enable" : "cb.disable");
	tr("callback: %s", enable ? "enable" : "disable");
	if (!W.in_dispatch && !W.in_open && !W.closing) violation("event.context", "listener called outside libseat_dispatch, libseat_open_seat and libseat_close_seat");
	if (W.in_cb) violation("event.nested", "listener called from within a listener call");
	if (!W.reported_any) {
		if (enable != W.initial_v)
			violation("logind.initial", "the first report is '%s' but the session was %s when asked", enable ? "enable" : "disable", W.initial_v ? "active" : "inactive");
		W.reported_any = true;
		W.reported = enable;
		st("check.initial");
		return;
	}
	if (enable == W.reported) violation("logind.alternate", "two %s events in a row", enable ? "enable" : "disable");
	int want = next_callback();
	if (want == -2) violation("logind.unasked-event", "%s reported before logind was asked for the invalidated property", enable ? "enable" : "disable");
	if (want != (int)enable)
		violation("logind.event", "%s reported but the signals received so far call for %s", enable ? "enable" : "disable", want < 0 ? "nothing" : want ? "enable" : "disable");
	// consume up to the effect that caused it
	for (auto &e : W.eff) {
		if (e.applied) continue;
		e.applied = true;
		bool v = e.kind == PAUSE ? false : e.v;
		if (v != W.reported) break;
	}
	W.reported = enable;
	st("check.event");
}
static void prune() {
	while (!W.eff.empty()) {
		Effect &e = W.eff.front();
		bool v = e.kind == PAUSE ? false : e.v;
		if (!e.applied) {
			if (!W.reported_any || (e.kind == ASK && !e.answered) || v != W.reported) break;
			// it changes nothing
			e.applied = true;
		}
		if (e.kind == PAUSE && !e.completed) break;
		W.eff.pop_front();
	}
}
static void got_pause_complete(uint32_t maj, uint32_t min) {
	// It must answer the oldest unacknowledged pause of that device, whose
	// disable callback must have happened.
	for (auto &e : W.eff) {
		if (e.kind != PAUSE || e.completed) {
			if (!e.applied && W.reported_any) {
				if (e.kind == ASK && !e.answered) violation("logind.ack-order", "PauseDeviceComplete sent before an earlier signal was dealt with");
				bool v = e.kind == PAUSE ? false : e.v;
				if (v != W.reported) violation("logind.ack-order", "PauseDeviceComplete sent before an earlier signal was dealt with");
				e.applied = true;
			}
			continue;
		}
		if (e.maj != maj || e.min != min)
			violation("logind.ack-device", "PauseDeviceComplete for %u:%u, but %u:%u was paused", maj, min, e.maj, e.min);
		if (!W.reported_any || W.reported)
			violation("logind.ack-early", "PauseDeviceComplete for %u:%u before the listener was told to disable", maj, min);
		if (W.in_cb) violation("logind.ack-early", "PauseDeviceComplete for %u:%u before the disable callback returned", maj, min);
		e.applied = e.completed = true;
		st("check.pause-complete");
		prune();
		return;
	}
	violation("logind.ack-unasked", "PauseDeviceComplete for %u:%u, which was not asked for", maj, min);
}

// ---------------------------------------------------------------- requests
static int reply_error(sd_bus_message *m, const char *name) {
	sd_bus_error e = SD_BUS_ERROR_NULL;
	sd_bus_error_set(&e, name, "model error");
	sd_bus_message *r = nullptr;
	sd_bus_message_new_method_error(m, &r, &e);
	sd_bus_message_set_sender(r, ":1.1");
	sd_bus_send(W.srv, r, nullptr);
	sd_bus_message_unref(r);
	sd_bus_error_free(&e);
	return 1;
}
static sd_bus_message *reply(sd_bus_message *m, const char *from = ":1.1") {
	sd_bus_message *r = nullptr;
	sd_bus_message_new_method_return(m, &r);
	sd_bus_message_set_sender(r, from);
	return r;
}
static int finish(sd_bus_message *r) {
	int k = sd_bus_send(W.srv, r, nullptr);
	if (k < 0) broken("sd_bus_send: %s", strerror(-k));
	sd_bus_message_unref(r);
	return 1;
}
struct ErrName { const char *n; int e; };
static const ErrName errnames[] = {{"org.freedesktop.DBus.Error.AccessDenied", EACCES}, {"System.Error.ENODEV", ENODEV}, {"System.Error.EBUSY", EBUSY},
				   {"org.freedesktop.DBus.Error.InvalidArgs", EINVAL}, {"System.Error.EOPNOTSUPP", EOPNOTSUPP}, {"org.freedesktop.DBus.Error.UnixProcessIdUnknown", ESRCH},
				   {"org.example.Weird", EIO}};
static void parse_match(const char *s, Match &m) {
	const char *p = s;
	while (*p) {
		const char *eq = strchr(p, '=');
		if (!eq) break;
		std::string k(p, eq), v;
		p = eq + 1;
		if (*p == '\'') {
			p++;
			while (*p && *p != '\'') v += *p++;
			if (*p) p++;
		} else
			while (*p && *p != ',') v += *p++;
		m.f[k] = v;
		if (*p == ',') p++;
	}
}
static void expect_api(const char *name, const char *req) {
	if (A.name != name) violation("logind.request", "%s sent during %s", req, A.name.empty() ? "no libseat call" : A.name.c_str());
	A.requests++;
	if (A.requests > 1) violation("logind.request", "%s sent %d times for one %s", req, A.requests, name);
}
static bool plan_error(sd_bus_message *m) {
	if (!rng.permille(W.pm_err)) return false;
	const ErrName &e = errnames[rng.below(7)];
	A.ok = false;
	A.err = e.e;
	tr("logind: error %s", e.n);
	st("logind.error-reply");
	reply_error(m, e.n);
	return true;
}
static int on_call(sd_bus_message *m, void *, sd_bus_error *) {
	uint8_t type;
	sd_bus_message_get_type(m, &type);
	if (type != SD_BUS_MESSAGE_METHOD_CALL) return 0;
	const char *dest = sd_bus_message_get_destination(m), *path = sd_bus_message_get_path(m), *iface = sd_bus_message_get_interface(m),
		   *mem = sd_bus_message_get_member(m);
	if (!dest) dest = "";
	if (!iface) iface = "";
	std::string key = std::string(iface) + "." + mem;
	tr("bus: %s %s %s", dest, path, key.c_str());
	W.requests++;
	st("bus.requests");
	W.seen[mem]++;
	if (W.die_at && W.requests >= W.die_at) { die("planned"); return 1; }
	if (!strcmp(dest, "org.freedesktop.DBus")) {
		if (!strcmp(mem, "Hello")) {
			sd_bus_message *r = reply(m, "org.freedesktop.DBus");
			sd_bus_message_append(r, "s", ":1.7");
			finish(r);
			sd_bus_message *s = new_signal("/org/freedesktop/DBus", "org.freedesktop.DBus", "NameAcquired");
			sd_bus_message_append(s, "s", ":1.7");
			sd_bus_message_set_sender(s, "org.freedesktop.DBus");
			sd_bus_message_set_destination(s, ":1.7");
			sd_bus_send(W.srv, s, nullptr);
			sd_bus_message_unref(s);
			return 1;
		}
		if (!strcmp(mem, "AddMatch") || !strcmp(mem, "RemoveMatch")) {
			const char *s;
			sd_bus_message_read(m, "s", &s);
			Match x;
			parse_match(s, x);
			tr("bus: %s %s", mem, s);
			if (mem[0] == 'A') {
				if (W.fail_member == "AddMatch" && rng.pct(60)) { W.fail_member = ""; st("open.refused"); return reply_error(m, "org.freedesktop.DBus.Error.AccessDenied"); }
				W.matches.push_back(x);
			} else
				for (size_t i = 0; i < W.matches.size(); i++)
					if (W.matches[i].f == x.f) { W.matches.erase(W.matches.begin() + (long)i); break; }
			if (sd_bus_message_get_expect_reply(m)) finish(reply(m, "org.freedesktop.DBus"));
			if (mem[0] == 'A' && rng.permille(W.pm_sig)) emit_random();
			return 1;
		}
		return reply_error(m, "org.freedesktop.DBus.Error.UnknownMethod");
	}
	if (strcmp(dest, LOGIN) && strcmp(dest, ":1.1")) return reply_error(m, "org.freedesktop.DBus.Error.ServiceUnknown");
	while (rng.permille(W.pm_sig)) emit_random(); // signals on the wire before the answer
	auto after = [&]() { while (rng.permille(W.pm_sig)) emit_random(); return 1; };
	if (!strcmp(mem, "Ping")) {
		W.pings++;
		st("ping");
		finish(reply(m));
		return after();
	}
	if (W.fail_member == mem && W.in_open) {
		W.fail_member = "";
		st("open.refused");
		if (W.fail_mode == 0) return reply_error(m, "org.freedesktop.DBus.Error.AccessDenied");
		sd_bus_message *r = reply(m);
		if (W.fail_mode == 1) sd_bus_message_append(r, "u", 7u);
		else if (W.fail_mode == 2) sd_bus_message_append(r, "v", "s", "yes");
		finish(r);
		return after();
	}
	if (!strcmp(mem, "GetSession") || !strcmp(mem, "GetSeat")) {
		const char *s = "";
		sd_bus_message_read(m, "s", &s);
		bool se = !strcmp(mem, "GetSession");
		if (strcmp(s, se ? W.sid.c_str() : W.seat.c_str())) violation("logind.request", "%s asks for '%s'", mem, s);
		sd_bus_message *r = reply(m);
		sd_bus_message_append(r, "o", se ? W.spath.c_str() : W.seatpath.c_str());
		finish(r);
		return after();
	}
	bool on_session = W.spath == path, on_seat = W.seatpath == path;
	if (!strcmp(mem, "Get")) {
		const char *i = "", *p = "";
		sd_bus_message_read(m, "ss", &i, &p);
		if (!on_session || strcmp(i, SESSION) || strcmp(p, "Active")) return reply_error(m, "org.freedesktop.DBus.Error.UnknownProperty");
		bool first = !W.initial_known;
		if (!first && rng.permille(W.pm_err / 3)) {
			// the client cannot know the value: nothing follows from this signal
			for (auto it = W.eff.begin(); it != W.eff.end(); ++it)
				if (it->kind == ASK && !it->answered) { W.eff.erase(it); break; }
			st("logind.get-error");
			W.want = false;
			W.in_handler = true; // final state no longer determined
			return reply_error(m, "org.freedesktop.DBus.Error.AccessDenied");
		}
		sd_bus_message *r = reply(m);
		sd_bus_message_append(r, "v", "b", (int)W.active);
		tr("logind: Active is %d", W.active);
		if (first) {
			W.initial_known = true;
			W.initial_v = W.active;
			W.want = W.active;
		} else {
			bool found = false;
			for (auto &e : W.eff)
				if (e.kind == ASK && !e.answered) {
					e.answered = found = true;
					e.v = W.active;
					break;
				}
			if (!found) st("get.extra");
		}
		finish(r);
		return after();
	}
	if (!strcmp(mem, "TakeControl")) {
		int force = -1;
		sd_bus_message_read(m, "b", &force);
		if (!on_session) violation("logind.request", "TakeControl on %s", path);
		if (force) violation("logind.request", "TakeControl by force");
		if (W.controlled) violation("logind.request", "TakeControl twice");
		W.controlled = true;
		finish(reply(m));
		return after();
	}
	if (!strcmp(mem, "ReleaseControl")) {
		if (!on_session) violation("logind.request", "ReleaseControl on %s", path);
		if (!W.closing) violation("logind.request", "ReleaseControl outside libseat_close_seat");
		W.controlled = false;
		if (rng.permille(W.pm_err)) return reply_error(m, "org.freedesktop.login1.NotInControl");
		finish(reply(m));
		return after();
	}
	if (!strcmp(mem, "SetType")) {
		const char *t = "";
		sd_bus_message_read(m, "s", &t);
		if (!on_session || W.type != t) violation("logind.request", "SetType %s on %s", t, path);
		st("settype");
		if (rng.permille(W.pm_err + 200)) return reply_error(m, "org.freedesktop.DBus.Error.UnknownMethod");
		finish(reply(m));
		return after();
	}
	uint32_t maj = 0, min = 0;
	if (!strcmp(mem, "TakeDevice") || !strcmp(mem, "ReleaseDevice") || !strcmp(mem, "PauseDeviceComplete")) {
		if (sd_bus_message_read(m, "uu", &maj, &min) < 0) violation("logind.request", "%s with wrong arguments", mem);
		if (!on_session) violation("logind.request", "%s on %s", mem, path);
	}
	if (!strcmp(mem, "PauseDeviceComplete")) {
		got_pause_complete(maj, min);
		if (rng.permille(W.pm_err)) return reply_error(m, "org.freedesktop.login1.DeviceNotTaken");
		finish(reply(m));
		return after();
	}
	if (!strcmp(mem, "TakeDevice")) {
		expect_api("open_device", mem);
		if (maj != A.a || min != A.b) violation("logind.args", "TakeDevice %u:%u for device %u:%u", maj, min, A.a, A.b);
		if (plan_error(m)) return after();
		if (rng.permille(W.pm_err / 3)) {
			sd_bus_message *r = reply(m);
			int k = rng.range(0, 2);
			if (k == 0) sd_bus_message_append(r, "u", 7u);
			if (k == 1) { int p = open("/dev/null", O_RDONLY | O_CLOEXEC); sd_bus_message_append(r, "h", p); close(p); }
			A.ok = false;
			A.err = 0;
			tr("logind: bad reply %d", k);
			st("logind.bad-reply");
			finish(r);
			return after();
		}
		int fd = -1;
		for (auto d : devs) {
			struct stat s;
			if (!stat(d, &s) && s.st_rdev == makedev(maj, min)) fd = open(d, O_RDWR | O_CLOEXEC);
		}
		if (fd < 0) { A.ok = false; A.err = ENODEV; reply_error(m, "System.Error.ENODEV"); return after(); }
		A.fdsig = 34 + W.nextsig++ % 30;
		fcntl(fd, F_SETSIG, A.fdsig);
		A.ok = true;
		W.taken[(uint64_t)maj << 32 | min]++;
		sd_bus_message *r = reply(m);
		sd_bus_message_append(r, "hb", fd, (int)rng.pct(30));
		finish(r);
		close(fd);
		return after();
	}
	if (!strcmp(mem, "ReleaseDevice")) {
		expect_api("close_device", mem);
		if (maj != A.a || min != A.b) violation("logind.args", "ReleaseDevice %u:%u for device %u:%u", maj, min, A.a, A.b);
		if (plan_error(m)) return after();
		A.ok = true;
		uint64_t k = (uint64_t)maj << 32 | min;
		if (W.taken.count(k) && --W.taken[k] <= 0) W.taken.erase(k);
		finish(reply(m));
		return after();
	}
	if (!strcmp(mem, "SwitchTo")) {
		expect_api("switch_session", mem);
		uint32_t n = 0;
		if (sd_bus_message_read(m, "u", &n) < 0 || n != A.a) violation("logind.args", "SwitchTo %u instead of %u", n, A.a);
		if (!on_seat) violation("logind.request", "SwitchTo on %s", path);
		if (plan_error(m)) return after();
		A.ok = true;
		finish(reply(m));
		return after();
	}
	st("request.unknown");
	return reply_error(m, "org.freedesktop.DBus.Error.UnknownMethod");
}

static bool pump() {
	if (W.in_pump) return false;
	W.in_pump = true;
	SaveErrno se;
	bool any = false;
	if (!W.accepted && W.lfd >= 0) {
		int c = accept4(W.lfd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
		if (c >= 0) {
			sd_id128_t id = {};
			id.bytes[0] = 1;
			int r = sd_bus_new(&W.srv);
			if (r >= 0) r = sd_bus_set_fd(W.srv, c, c);
			if (r >= 0) r = sd_bus_set_server(W.srv, 1, id);
			if (r >= 0) r = sd_bus_set_trusted(W.srv, 1);
			if (r >= 0) r = sd_bus_negotiate_fds(W.srv, 1);
			if (r >= 0) r = sd_bus_add_filter(W.srv, nullptr, on_call, nullptr);
			if (r >= 0) r = sd_bus_start(W.srv);
			if (r < 0) broken("server bus: %s", strerror(-r));
			W.accepted = true;
			any = true;
		}
	}
	while (W.srv) {
		int r = sd_bus_process(W.srv, nullptr);
		if (r < 0) {
			if (r == -ECONNRESET || r == -ENOTCONN || r == -EPIPE) { // the client closed its end
				tr("bus: client is gone");
				sd_bus_unref(W.srv);
				W.srv = nullptr;
				break;
			}
			broken("server process: %s", strerror(-r));
		}
		if (r == 0) break;
		any = true;
	}
	W.in_pump = false;
	return any;
}

static int (*real_ppoll)(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
#include <sys/syscall.h>
static int raw_poll(struct pollfd *p, nfds_t n, int ms) {
	struct timespec z = {ms / 1000, (ms % 1000) * 1000000L};
	return (int)syscall(SYS_ppoll, p, n, ms < 0 ? nullptr : &z, nullptr, 8);
}
static int wait_client(struct pollfd *p, nfds_t n, int64_t timeout_ms, bool own_poll) {
	int rounds = 0;
	for (;;) {
		bool any = pump();
		int r = raw_poll(p, n, 0);
		if (r != 0 || timeout_ms == 0) return r;
		if (any) continue;
		if (own_poll) { // libseat itself waits for something to happen
			if (W.dispatch_timeout == 0) violation("dispatch.blocks", "libseat_dispatch with timeout 0 waits (%lld ms)", (long long)timeout_ms);
			W.waited = true;
			if (W.callbacks_in_call) violation("dispatch.blocks", "libseat_dispatch waits after it has already called the listener");
			if (W.dead && timeout_ms < 0) violation("dispatch.hang", "libseat_dispatch waits forever on a lost connection");
			if (timeout_ms < 0 && work_left()) violation("wake.blocked", "libseat_dispatch waits although received signals have not been delivered");
			if (timeout_ms > 0 && rng.pct(50)) { st("poll.timeout"); return 0; }
			if (rounds++ == 0) { emit_random(); continue; }
			if (timeout_ms > 0) return 0;
			// it may wait as long as it likes: something must come
			W.sig_budget = std::max(W.sig_budget, 1);
			if (W.dead) violation("dispatch.hang", "libseat_dispatch waits forever on a lost connection");
			if (rounds > 4 || W.sig_budget < 2) set_model_active(!W.active);
			else emit_random();
			if (rounds > 50) violation("dispatch.hang", "libseat_dispatch is not woken by signals");
			continue;
		}
		if (W.dead) violation("call.hang", "%s waits for an answer on a lost connection", A.name.empty() ? "libseat" : A.name.c_str());
		violation("call.hang", "%s waits (%lld ms) for an answer although every request was answered", A.name.empty() ? "libseat" : A.name.c_str(), (long long)timeout_ms);
	}
}
// libsystemd's waits
extern "C" __attribute__((visibility("default"))) int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *ss) {
	if (W.in_pump || !W.in_open && A.name.empty() && !W.in_dispatch && !W.closing) return (int)syscall(SYS_ppoll, p, n, ts, ss, 8);
	int64_t ms = ts ? ts->tv_sec * 1000LL + (ts->tv_nsec + 999999) / 1000000 : -1;
	return wait_client(p, n, ms, false);
}

// ---------------------------------------------------------------- sd-login stand-ins, checks at the sd-bus boundary
static int sess_src, pid_err, uid_err, act_err, seat_err;
extern "C" {
int x_session_is_active(const char *s) {
	if (act_err) return act_err;
	if (W.sid != s) return -ENXIO;
	return W.active;
}
int x_pid_get_session(pid_t p, char **o) {
	if (p != getpid() && p != 0) return -ESRCH;
	if (sess_src != 1) return pid_err;
	*o = (char *)sim_malloc(W.sid.size() + 1);
	strcpy(*o, W.sid.c_str());
	return 0;
}
int x_uid_get_display(uid_t, char **o) {
	if (sess_src != 2) return uid_err;
	*o = (char *)sim_malloc(W.sid.size() + 1);
	strcpy(*o, W.sid.c_str());
	return 0;
}
int x_session_get_seat(const char *s, char **o) {
	if (W.sid != s) return -ENXIO;
	if (seat_err) return seat_err;
	*o = (char *)sim_malloc(W.seat.size() + 1);
	strcpy(*o, W.seat.c_str());
	return 0;
}
static void bool_target(char t, const void *p) {
	if (t == 'b' && p && __asan_region_is_poisoned && __asan_region_is_poisoned((void *)p, sizeof(int)))
		violation("sanitizer.bool", "a D-Bus boolean (an int) is read into a smaller object");
}
int x_get_property_trivial(sd_bus *b, const char *d, const char *p, const char *i, const char *m, sd_bus_error *e, char t, void *o) {
	bool_target(t, o);
	return sd_bus_get_property_trivial(b, d, p, i, m, e, t, o);
}
int x_read_basic(sd_bus_message *m, char t, void *o) {
	bool_target(t, o);
	return sd_bus_message_read_basic(m, t, o);
}
}

// ---------------------------------------------------------------- the application
struct Dev { int id, fd; uint32_t maj, min; };
static std::vector<Dev> opened;
static int reent;
static void api_op(bool in_cb);
static void on_enable(struct libseat *s, void *d) {
	if (d != &W) violation("event.userdata", "listener called with other user data");
	if (seat && s != seat) violation("event.userdata", "listener called with another seat");
	on_callback(true);
	W.in_cb = true;
	if (!seat) seat = s;
	int n = rng.pct(reent) ? rng.range(1, 3) : 0;
	for (int i = 0; i < n; i++) api_op(true);
	W.in_cb = false;
	tr("callback returns");
}
static void on_disable(struct libseat *s, void *d) {
	if (d != &W) violation("event.userdata", "listener called with other user data");
	if (seat && s != seat) violation("event.userdata", "listener called with another seat");
	on_callback(false);
	W.in_cb = true;
	if (rng.pct(90)) {
		Api save = A;
		A = Api();
		A.name = "disable_seat";
		if (libseat_disable_seat(s) != 0 && !W.dead) violation("logind.disable", "libseat_disable_seat failed");
		A = save;
	}
	int n = rng.pct(reent) ? rng.range(1, 3) : 0;
	for (int i = 0; i < n; i++) api_op(true);
	W.in_cb = false;
	tr("callback returns");
}
static const struct libseat_seat_listener listener = {on_enable, on_disable};

static void check_wake(const char *after) {
	prune();
	if (W.dead || !W.reported_any || W.in_cb || W.in_dispatch) return;
	pump();
	if (!work_left() || W.dead) return;
	struct pollfd p = {libseat_get_fd(seat), POLLIN, 0};
	raw_poll(&p, 1, 0);
	if (!p.revents) violation("wake.none", "after %s signals are waiting to be delivered but the descriptor is not readable", after);
	st("check.wake");
}
static std::string scratch_file;
static void check_failed(const char *what, int r) {
	if (r != -1) violation("call.result", "%s returned %d instead of -1", what, r);
	if (errno == 0) violation("call.errno", "%s returned -1 without setting errno", what);
	if (A.err && errno != A.err) violation("call.errno", "%s failed with errno %d (%s), logind's answer was %d (%s)", what, errno, strerror(errno), A.err, strerror(A.err));
	st("check.failed-call");
}
static void finish_api(const char *what, bool valid, int expected_requests) {
	if (valid && !W.dead && A.requests != expected_requests) violation("logind.request", "%s sent %d requests", what, A.requests);
	if (!valid && A.requests) violation("logind.request", "%s with bad arguments sent a request", what);
}
static void api_op(bool in_cb) {
	Api save = A;
	A = Api();
	bool saved_disp = W.in_dispatch;
	if (in_cb) W.in_dispatch = false; // a nested call, not dispatch itself
	bool was_dead = W.dead;
	int cbs = W.callbacks;
	int k = rng.range(0, 99);
	std::string what;
	if (k < 40) {
		what = "libseat_open_device";
		A.name = "open_device";
		int j = rng.range(0, 99);
		std::string path = j < 80 ? devs[rng.below(5)] : j < 88 ? scratch_file + ".link" : j < 94 ? scratch_file + ".missing" : "/dev/null/x";
		struct stat s;
		bool valid = stat(path.c_str(), &s) == 0;
		int e = valid ? 0 : errno;
		A.a = valid ? major(s.st_rdev) : 0;
		A.b = valid ? minor(s.st_rdev) : 0;
		int fd = -5;
		tr("app: open_device(%s)", path.c_str());
		errno = 0;
		int id = libseat_open_device(seat, path.c_str(), &fd);
		int er = errno;
		tr("app: open_device = %d fd %d errno %d", id, fd, id < 0 ? er : 0);
		errno = er;
		finish_api("libseat_open_device", valid, 1);
		if (!valid) { A.err = e; check_failed("libseat_open_device", id); }
		else if (A.requests && A.ok && (!W.dead || id >= 0)) {
			if (io::injected && id == -1) { st("check.dup-failed"); }
			else {
			if (id < 0) violation("call.result", "libseat_open_device failed (errno %d) although logind handed out the device", er);
			struct stat f;
			if (fstat(fd, &f)) violation("call.fd", "libseat_open_device returned descriptor %d, which is not open", fd);
			if (f.st_rdev != makedev(A.a, A.b) || fcntl(fd, F_GETSIG) != A.fdsig)
				violation("call.fd", "libseat_open_device returned a descriptor that is not the one logind sent");
			if (!(fcntl(fd, F_GETFD) & FD_CLOEXEC)) violation("call.fd", "device descriptor without close-on-exec");
			for (auto &o : opened)
				if (o.fd == fd || o.id == id) violation("call.fd", "descriptor or device id handed out twice");
			opened.push_back({id, fd, A.a, A.b});
			st("check.open");
			}
		} else {
			if (was_dead) A.err = 0;
			errno = er;
			check_failed("libseat_open_device", id);
		}
	} else if (k < 62) {
		what = "libseat_close_device";
		A.name = "close_device";
		int id;
		bool valid = true;
		size_t at = 0;
		if (!opened.empty() && rng.pct(85)) {
			at = rng.below((uint32_t)opened.size());
			id = opened[at].id;
			A.a = opened[at].maj;
			A.b = opened[at].min;
		} else {
			id = rng.pct(50) ? -rng.range(1, 3) : 9999;
			valid = false;
		}
		tr("app: close_device(%d)", id);
		errno = 0;
		int r = libseat_close_device(seat, id);
		int er = errno;
		tr("app: close_device = %d errno %d", r, r ? er : 0);
		finish_api("libseat_close_device", valid, 1);
		errno = er;
		if (!valid) { A.err = id < 0 ? EINVAL : EBADF; check_failed("libseat_close_device", r); }
		else if (A.requests && A.ok && (!W.dead || r == 0)) {
			if (r != 0) violation("call.result", "libseat_close_device = %d although logind released the device", r);
			st("check.close");
		} else {
			if (W.dead) A.err = 0;
			check_failed("libseat_close_device", r);
		}
		if (valid) {
			if (fcntl(opened[at].fd, F_GETFD) < 0) violation("fd.closed", "libseat_close_device closed the application's descriptor");
			sim_close(opened[at].fd);
			opened.erase(opened.begin() + (long)at);
		}
	} else if (k < 80) {
		what = "libseat_switch_session";
		A.name = "switch_session";
		int n = rng.pct(80) ? rng.range(0, 12) : rng.pct(50) ? -rng.range(1, 5) : INT_MAX;
		A.a = (uint32_t)n;
		tr("app: switch_session(%d)", n);
		errno = 0;
		int r = libseat_switch_session(seat, n);
		int er = errno;
		tr("app: switch_session = %d errno %d", r, r ? er : 0);
		finish_api("libseat_switch_session", n >= 0, 1);
		errno = er;
		if (n < 0) { A.err = EINVAL; check_failed("libseat_switch_session", r); }
		else if (A.requests && A.ok && (!W.dead || r == 0)) {
			if (r != 0) violation("call.result", "libseat_switch_session = %d although logind agreed", r);
			st("check.switch");
		} else {
			if (W.dead) A.err = 0;
			check_failed("libseat_switch_session", r);
		}
	} else if (k < 90) {
		what = "libseat_seat_name";
		const char *n = libseat_seat_name(seat);
		if (!n || W.seat != n) violation("call.name", "libseat_seat_name is '%s'", n ? n : "(null)");
	} else {
		what = "libseat_disable_seat";
		A.name = "disable_seat";
		int r = libseat_disable_seat(seat);
		if (r != 0 && !W.dead) violation("logind.disable", "libseat_disable_seat failed");
	}
	if (W.callbacks != cbs) violation("event.context", "listener called from %s", what.c_str());
	A = save;
	W.in_dispatch = saved_disp;
	if (!in_cb) check_wake(what.c_str());
}
static int dead_dispatches;
static void dispatch(int timeout) {
	W.in_dispatch = true;
	W.callbacks_in_call = 0;
	bool was_dead = W.dead;
	bool left = work_left();
	W.dispatch_timeout = timeout;
	W.waited = false;
	bool first = !W.reported_any; // owed without any message
	pump();
	struct pollfd before = {libseat_get_fd(seat), POLLIN, 0};
	if (before.fd >= 0) raw_poll(&before, 1, 0);
	tr("app: dispatch(%d)", timeout);
	errno = 0;
	int r = libseat_dispatch(seat, timeout);
	int er = errno;
	W.in_dispatch = false;
	tr("app: dispatch = %d callbacks %d", r, W.callbacks_in_call);
	if (r == -1) {
		if (!W.dead) violation("dispatch.fails", "libseat_dispatch failed with errno %d on a working connection", er);
		if (er == 0) violation("call.errno", "libseat_dispatch returned -1 without setting errno");
		if (W.dead) st("check.dead-dispatch");
	} else if (r < 0) violation("dispatch.result", "libseat_dispatch returned %d", r);
	if (was_dead && r >= 0) {
		if (++dead_dispatches > 3) violation("dispatch.dead", "libseat_dispatch keeps returning %d on a lost connection", r);
	}
	if (r == 0 && timeout != 0 && !W.waited && !W.callbacks_in_call && !W.dead)
		violation("dispatch.no-wait", "libseat_dispatch(%d) returned 0 at once", timeout);
	if (r > 0 && !first && !before.revents && !W.waited && !W.callbacks_in_call && !W.dead && !was_dead)
		violation("dispatch.no-wait", "libseat_dispatch(%d) returned %d with nothing to process", timeout, r);
	if (r == 0 && W.callbacks_in_call > first)
		violation("dispatch.result", "libseat_dispatch(%d) returned 0 although it processed messages", timeout);
	(void)left;
	check_wake("libseat_dispatch");
}
static void log_fn(enum libseat_log_level, const char *fmt, va_list ap) {
	char b[600];
	vsnprintf(b, sizeof b, fmt, ap);
	errno = 77; // handlers may change it
	tr("log: %s", b);
}

static void drain_app_bus(sd_bus *b) {
	for (int i = 0; i < 50; i++) {
		pump();
		if (sd_bus_process(b, nullptr) <= 0) break;
	}
}
static void run_case(uint64_t idx) {
	run.case_cur = idx;
	rng.seed(run.seed, idx * 13 + 5);
	trace_reset();
	io::reset();
	W = World();
	A = Api();
	opened.clear();
	seat = nullptr;
	dead_dispatches = 0;
	reent = rng.pct(60) ? rng.range(10, 80) : 0;
	call_limit = 200000;
	cpu_limit(20);
	W.sid = rng.pct(50) ? "c" + std::to_string(rng.range(1, 20)) : std::to_string(rng.range(1, 99));
	W.seat = rng.pct(70) ? "seat0" : "seat-" + std::to_string(rng.range(1, 9));
	W.spath = "/org/freedesktop/login1/session/_3" + std::to_string(rng.range(1, 9));
	W.other_spath = "/org/freedesktop/login1/session/_4" + std::to_string(rng.range(1, 9));
	W.seatpath = "/org/freedesktop/login1/seat/seat" + std::to_string(rng.range(0, 9));
	W.active = rng.pct(70);
	W.pm_sig = rng.pct(75) ? rng.range(20, 450) : 0;
	W.pm_err = rng.pct(50) ? rng.range(10, 400) : 0;
	W.sig_budget = rng.range(5, 80);
	sess_src = rng.range(0, 2);
	pid_err = rng.pct(50) ? -ENODATA : -ESRCH;
	uid_err = rng.pct(50) ? -ENODATA : -ENXIO;
	act_err = rng.pct(4) ? -ENXIO : 0;
	seat_err = rng.pct(4) ? -ENODATA : 0;
	bool no_session = rng.pct(4);
	int expect_err = 0;
	if (no_session) sess_src = 5;
	if (sess_src == 0) {
		setenv("XDG_SESSION_ID", rng.pct(96) ? W.sid.c_str() : "nonsense", 1);
		if (act_err) expect_err = -act_err;
		else if (getenv("XDG_SESSION_ID") != W.sid) expect_err = ENXIO;
	} else unsetenv("XDG_SESSION_ID");
	if (sess_src == 5) expect_err = -uid_err;
	if (!expect_err && seat_err) expect_err = -seat_err;
	if (rng.pct(40)) { W.type = rng.pct(50) ? "wayland" : "x11"; setenv("XDG_SESSION_TYPE", W.type.c_str(), 1); }
	else unsetenv("XDG_SESSION_TYPE");
	std::string sock = run.scratch + "/bus";
	setenv("DBUS_SYSTEM_BUS_ADDRESS", ("unix:path=" + sock).c_str(), 1);
	setenv("LIBSEAT_BACKEND", "logind", 1);
	unlink(sock.c_str());
	bool no_bus = rng.pct(3);
	struct sockaddr_un un = {};
	un.sun_family = AF_UNIX;
	strncpy(un.sun_path, sock.c_str(), sizeof un.sun_path - 1);
	W.lfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
	if (bind(W.lfd, (struct sockaddr *)&un, sizeof un) || listen(W.lfd, 5)) broken("bus socket: %s", strerror(errno));
	if (no_bus) { close(W.lfd); W.lfd = -1; W.dead = true; }
	bool must_fail = expect_err || no_bus;
	if (rng.pct(12)) {
		static const char *mem[] = {"GetSession", "GetSeat", "AddMatch", "Get", "TakeControl"};
		W.fail_member = mem[rng.below(5)];
		W.fail_mode = rng.range(0, 3);
		if (W.fail_member == "TakeControl" || W.fail_member == "AddMatch") W.fail_mode = 0;
	}
	std::string fm = W.fail_member;
	int death = rng.range(0, 99);
	if (death < 6) W.die_at = (uint64_t)rng.range(1, 12);
	else if (death < 22) W.die_at = (uint64_t)rng.range(12, 60);
	hk.poll = [](struct pollfd *p, nfds_t n, int t) -> int {
		for (nfds_t i = 0; i < n; i++)
			if (p[i].fd < 0 && t < 0 && n == 1) violation("dispatch.hang", "waits forever on descriptor %d", p[i].fd);
		return wait_client(p, n, t, true);
	};
	int pm_fault = rng.pct(20) ? rng.range(5, 80) : 0;
	hk.fail = [&](const char *w, int) -> int {
		if (!strcmp(w, "poll") && pm_fault && rng.permille(pm_fault * 3)) {
			W.waited = true;
			st("poll.interrupted");
			return rng.pct(80) ? EINTR : EAGAIN;
		}
		if (!strcmp(w, "fcntl") && pm_fault && rng.permille(pm_fault * 2)) return EMFILE;
		return 0;
	};
	sd_bus *appbus = nullptr;
	size_t fds0 = 0;
	auto count_fds = []() {
		size_t n = 0;
		for (int i = 3; i < 64; i++)
			if (fcntl(i, F_GETFD) >= 0) n++;
		return n;
	};
	bool app_ref = rng.pct(20) && !no_bus;
	fds0 = count_fds() - (W.lfd >= 0);
	W.in_open = true;
	if (app_ref) {
		int r = sd_bus_default_system(&appbus);
		if (r < 0) appbus = nullptr;
		else tr("app: holds a reference on the default system bus");
		if (appbus && rng.pct(50)) { // a program that has used its bus already
			const char *n;
			A.name = "app";
			sd_bus_get_unique_name(appbus, &n);
			drain_app_bus(appbus);
			A = Api();
			st("app.bus-in-use");
		}
	}
	errno = 0;
	struct libseat *s = libseat_open_seat(&listener, &W);
	int e = errno;
	W.in_open = false;
	tr("app: open_seat = %s errno %d", s ? "ok" : "NULL", s ? 0 : e);
	bool fail_ok = W.fail_member.empty() && !fm.empty();
	if (!s) {
		if (e == 0) violation("open.errno", "libseat_open_seat failed without setting errno");
		if (!must_fail && !fail_ok && !W.dead) violation("open.fails", "libseat_open_seat failed with errno %d although everything worked", e);
		if (expect_err && e != expect_err) violation("open.errno", "libseat_open_seat failed with errno %d instead of %d", e, expect_err);
		if (W.controlled && !W.dead) violation("open.control", "libseat_open_seat failed but keeps control of the session");
		st("check.open-failed");
	} else {
		if (must_fail || (fail_ok)) violation("open.unexpected", "libseat_open_seat succeeded although a step failed");
		if (!W.controlled) violation("open.control", "libseat_open_seat succeeded without taking control");
		if (!W.initial_known) violation("open.control", "libseat_open_seat succeeded without asking for the session's state");
		if (!W.type.empty() && !W.seen.count("SetType")) violation("open.type", "the session type was not set");
		if (W.callbacks) violation("event.context", "listener called from libseat_open_seat");
		st("check.opened");
		seat = s;
		check_wake("libseat_open_seat");
		int steps = rng.range(3, 60);
		bool loop_app = rng.pct(50);
		bool want_dead_check = false;
		for (int i = 0; i < steps; i++) {
			uint64_t h = 0xcbf29ce484222325ull;
			uint32_t x[8] = {W.reported_any, W.reported, W.active, (uint32_t)std::min<size_t>(W.eff.size(), 6), (uint32_t)std::min<size_t>(opened.size(), 4), W.dead,
					 (uint32_t)W.want, (uint32_t)W.matches.size()};
			hash_add(h, x, sizeof x);
			for (size_t q = 0; q < W.eff.size() && q < 4; q++) { uint32_t y = W.eff[q].kind * 8u + W.eff[q].v * 4u + W.eff[q].applied * 2u + W.eff[q].answered; hash_add(h, &y, sizeof y); }
			states.insert(h);
			int k = rng.range(0, 99);
			if (rng.pct(25)) emit_random();
			if (W.dead) want_dead_check = true;
			uint32_t op = (uint32_t)k / 10;
			hash_add(h, &op, sizeof op);
			transitions.insert(h);
			if (k < 35) {
				if (!loop_app) dispatch(rng.pct(60) ? 0 : rng.pct(50) ? -1 : rng.range(1, 50));
				else { // only when the descriptor is readable (or at first)
					pump();
					int fd = libseat_get_fd(seat);
					struct pollfd p = {fd, POLLIN, 0};
					if (fd >= 0) raw_poll(&p, 1, 0);
					if (fd < 0 && !W.dead) violation("call.fd", "libseat_get_fd = %d", fd);
					if (p.revents || !W.reported_any || fd < 0) dispatch(0);
					else if (rng.pct(30)) dispatch(rng.pct(50) ? -1 : 5);
				}
			} else if (k < 85) api_op(false);
			else if (k < 93) emit_random();
			else {
				errno = 0;
				int fd = libseat_get_fd(seat);
				if (fd < 0 && !W.dead) violation("call.fd", "libseat_get_fd = %d", fd);
				if (fd < 0 && (fd != -1 || errno == 0)) violation("call.errno", "libseat_get_fd = %d, errno %d", fd, errno);
			}
		}
		(void)want_dead_check;
		if (!W.dead && rng.pct(70)) { // quiesce: an event loop reacting to readability alone
			W.pm_sig = 0;
			if (!W.reported_any) dispatch(0);
			for (int i = 0; i < 200; i++) {
				pump();
				struct pollfd p = {libseat_get_fd(seat), POLLIN, 0};
				if (raw_poll(&p, 1, 0) <= 0) break;
				dispatch(0);
				if (i == 199 && !W.dead) violation("dispatch.endless", "the descriptor stays readable after 200 dispatches");
			}
			prune();
			if (!W.dead) {
				if (work_left()) violation("event.lost", "signals were not delivered although the event loop dispatched whenever the descriptor was readable");
				if (!W.in_handler && W.reported != W.want)
					violation("logind.stale", "the listener was last told '%s' but the session is %s", W.reported ? "enable" : "disable", W.want ? "active" : "inactive");
				st("check.quiescent");
			}
		}
		if (W.dead) {
			for (int i = 0; i < 3; i++) dispatch(i == 1 ? -1 : 0);
			for (int i = 0; i < 3; i++) api_op(false);
			errno = 0;
			int fd = libseat_get_fd(seat);
			if (fd < 0 && (fd != -1 || errno == 0)) violation("call.errno", "libseat_get_fd on a lost connection = %d, errno %d", fd, errno);
			st(fd < 0 ? "check.fd-dead" : "fd-dead-open");
		}
		if (rng.pct(30)) emit_random();
		W.closing = true;
		int r = libseat_close_seat(seat);
		if (r != 0) violation("close.result", "libseat_close_seat = %d", r);
		seat = nullptr;
		pump();
		W.closing = false;
		if (!W.dead && W.controlled) violation("close.control", "the seat was closed without releasing control of the session");
		st("check.closed");
	}
	int cbs = W.callbacks;
	W.closed = true;
	if (appbus) {
		for (int i = 0; i < 6; i++) emit_random();
		if (W.srv && !W.dead) emit_pause(0, 13, 70, W.spath.c_str(), false, true);
		drain_app_bus(appbus);
		if (W.callbacks != cbs) violation("event.context", "listener called after the seat was closed");
		sd_bus_unref(appbus);
		st("check.app-bus");
	}
	for (auto &o : opened) sim_close(o.fd);
	opened.clear();
	pump();
	if (W.srv) { sd_bus_close(W.srv); sd_bus_unref(W.srv); W.srv = nullptr; }
	if (W.lfd >= 0) close(W.lfd), W.lfd = -1;
	size_t n = count_fds();
	if (n != fds0) violation("leak.fd", "%zu descriptors are open after closing the seat, %zu before", n, fds0);
	if (!allocs.empty()) violation("leak.memory", "%zu allocations of libseat were not freed", allocs.size());
	static int leakcnt;
	static bool lsan = run.profile == "leak";
	if (lsan && __lsan_do_recoverable_leak_check && ++leakcnt) {
		if (__lsan_do_recoverable_leak_check()) violation("leak.memory", "leak detected by LeakSanitizer (see log)");
		st("check.leaks");
	}
	memcheck_report();
	cases_run++;
	if (W.callbacks || W.requests > 4) {
		cases_nontrivial++;
		if (cases_seen.size() < 400000) cases_seen.insert(case_hash);
	}
	if (sample.empty() && W.callbacks > 3)
		for (size_t i = 0; i < 40 && i < trace_ring.size(); i++) sample += trace_ring[i] + "\n";
}

int main(int argc, char **argv) {
	setup(argc, argv, "logind");
	if (run.scratch.empty()) broken("need --scratch");
	scratch_file = run.scratch + "/file";
	if (symlink("/dev/zero", (scratch_file + ".link").c_str())) {}
	libseat_set_log_handler(log_fn);
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		run_case(i);
	}
	dump_stats();
	return 0;
}
