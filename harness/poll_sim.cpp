// Model-based harness of the event loop (seatd/poller.c): sources come and go
// inside callbacks, signals arrive at system calls, in callbacks and, in the
// "step" profile, between any two instructions of the poller.
#include <assert.h>
#include <ucontext.h>
#include "io.hpp"
extern "C" {
#include "poller.h"
extern char __start_polltext[], __stop_polltext[];
}
using namespace vh;

// ---------------------------------------------------------------- model
struct Src {
	int id, fd;
	uint32_t mask;
	bool alive = true, updated = false;
	int added_round, expect = 0, called_round = -1;
	struct event_source_fd *h;
};
struct Sig {
	int id, sig;
	bool alive = true;
	volatile bool pending = false;
	volatile unsigned long raised = 0;
	unsigned long delivered = 0;
	struct event_source_signal *h;
};
static const int SIGS[] = {SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGHUP, SIGWINCH};
static struct poller P;
static std::deque<Src> srcs;
static std::deque<Sig> sigs;
static std::set<int> used_sigs; // signals with a handler installed
static int round_no, in_round, pipe_r, idle_wakes;
static bool polled, raised_since, faults_on, storm;
static int ops_left, max_srcs;
static bool sigs_in_cb;

static void do_raise(int s) {
	if (!used_sigs.count(s)) return;
	for (auto &g : sigs)
		if (g.alive && g.sig == s) { g.pending = true; g.raised = g.raised + 1; }
	raised_since = true;
	tr("raise %d", s);
	st("sig.raised");
	int e = errno;
	errno = 0x5A5A;
	raise(s);
	if (errno != 0x5A5A) violation("poll.errno", "the signal handler changed errno to %d", errno);
	errno = e;
}
static void raise_some(int pct) {
	while (rng.pct(pct)) do_raise(SIGS[rng.below(6)]);
}
static int on_fd(int fd, uint32_t mask, void *data);
static int on_sig(int s, void *data);

static void op_add_fd() {
	int n = 0;
	for (auto &s : srcs) n += s.alive;
	if (n >= max_srcs) return;
	Src s;
	s.id = (int)srcs.size();
	// reuse descriptor numbers of destroyed sources often
	s.fd = 100 + (int)rng.below(6);
	for (auto &o : srcs)
		if (o.alive && o.fd == s.fd && rng.pct(95)) return;
	uint32_t masks[] = {EVENT_READABLE, EVENT_WRITABLE, EVENT_READABLE | EVENT_WRITABLE, 0};
	s.mask = masks[rng.below(rng.pct(10) ? 4 : 3)];
	s.added_round = round_no;
	srcs.push_back(s);
	uint64_t bad = io::injected_alloc;
	auto *h = poller_add_fd(&P, s.fd, s.mask, on_fd, &srcs.back());
	if (!h) {
		if (io::injected_alloc == bad) violation("poll.add-fails", "poller_add_fd failed for no reason");
		srcs.pop_back();
		return;
	}
	srcs.back().h = h;
	tr("add fd source %d: fd %d mask %x", s.id, s.fd, s.mask);
	st("fd.added");
}
static void op_destroy_fd() {
	std::vector<Src *> v;
	for (auto &s : srcs)
		if (s.alive) v.push_back(&s);
	if (v.empty()) return;
	Src *s = v[rng.below((uint32_t)v.size())];
	tr("destroy fd source %d (fd %d)", s->id, s->fd);
	s->alive = false;
	if (event_source_fd_destroy(s->h) != 0) violation("poll.destroy", "destroy of source %d failed", s->id);
	s->h = nullptr;
	st("fd.destroyed");
	if (in_round) st("fd.destroyed-in-callback");
}
static void op_update_fd() {
	std::vector<Src *> v;
	for (auto &s : srcs)
		if (s.alive) v.push_back(&s);
	if (v.empty()) return;
	Src *s = v[rng.below((uint32_t)v.size())];
	s->mask = rng.pct(50) ? EVENT_READABLE : (rng.pct(50) ? EVENT_READABLE | EVENT_WRITABLE : EVENT_WRITABLE);
	tr("update fd source %d (fd %d) mask %x", s->id, s->fd, s->mask);
	s->updated = true;
	if (event_source_fd_update(s->h, s->mask) != 0) violation("poll.update", "update of source %d failed", s->id);
	st("fd.updated");
}
static void op_add_sig() {
	int n = 0;
	for (auto &s : sigs) n += s.alive;
	if (n >= 6) return;
	Sig g;
	g.id = (int)sigs.size();
	g.sig = SIGS[rng.below(6)];
	sigs.push_back(g);
	uint64_t bad = io::injected_alloc;
	auto *h = poller_add_signal(&P, g.sig, on_sig, &sigs.back());
	if (!h) {
		if (io::injected_alloc == bad) violation("poll.add-fails", "poller_add_signal failed for no reason");
		sigs.pop_back();
		return;
	}
	sigs.back().h = h;
	used_sigs.insert(g.sig);
	tr("add signal source %d: signal %d", g.id, g.sig);
	st("sig.added");
}
static void op_destroy_sig() {
	std::vector<Sig *> v;
	for (auto &s : sigs)
		if (s.alive) v.push_back(&s);
	if (v.empty()) return;
	Sig *g = v[rng.below((uint32_t)v.size())];
	tr("destroy signal source %d (signal %d)", g->id, g->sig);
	g->alive = false;
	if (event_source_signal_destroy(g->h) != 0) violation("poll.destroy", "destroy of signal source %d failed", g->id);
	g->h = nullptr;
	bool other = false;
	for (auto &o : sigs) other |= o.alive && o.sig == g->sig;
	if (!other) {
		// whether the default action is restored is up to the poller; never raise it again
		struct sigaction sa;
		sigaction(g->sig, nullptr, &sa);
		if (sa.sa_handler == SIG_DFL) used_sigs.erase(g->sig);
	} else {
		struct sigaction sa;
		sigaction(g->sig, nullptr, &sa);
		if (sa.sa_handler == SIG_DFL) violation("poll.signal-dropped", "signal %d still has a source but its default action is back", g->sig);
	}
	st("sig.destroyed");
}
static void some_ops(int pct) {
	while (ops_left > 0 && rng.pct(pct)) {
		ops_left--;
		int k = (int)rng.below(100);
		if (k < 35) op_add_fd();
		else if (k < 65) op_destroy_fd();
		else if (k < 80) op_update_fd();
		else if (k < 85) op_add_sig();
		else if (k < 87) op_destroy_sig();
		else raise_some(70);
	}
}
static int on_fd(int fd, uint32_t mask, void *data) {
	Src *s = (Src *)data;
	tr("callback fd source %d fd %d mask %x", s->id, fd, mask);
	if (!in_round || !polled) violation("poll.order", "callback of source %d outside of a poll", s->id);
	if (!s->alive) violation("poll.dead-source", "callback for destroyed source %d", s->id);
	if (s->added_round == round_no) violation("poll.new-source", "callback for source %d, which was not polled yet", s->id);
	if (fd != s->fd) violation("poll.wrong-fd", "callback for source %d with fd %d instead of %d", s->id, fd, s->fd);
	if (!s->expect) violation("poll.not-ready", "callback for source %d (fd %d), which is not ready", s->id, fd);
	if (s->called_round == round_no) violation("poll.twice", "source %d called twice in one round", s->id);
	s->called_round = round_no;
	uint32_t want = 0;
	if (s->expect & POLLIN) want |= EVENT_READABLE;
	if (s->expect & POLLOUT) want |= EVENT_WRITABLE;
	if (s->expect & POLLERR) want |= EVENT_ERROR;
	if (s->expect & POLLHUP) want |= EVENT_HANGUP;
	if (mask != want) violation("poll.mask", "source %d called with mask %x instead of %x", s->id, mask, want);
	st("check.fd-callback");
	some_ops(50);
	raise_some(sigs_in_cb ? 20 : 0);
	return 0;
}
static int on_sig(int sig, void *data) {
	Sig *g = (Sig *)data;
	tr("callback signal source %d signal %d", g->id, sig);
	if (!in_round || !polled) violation("poll.order", "callback of signal source %d outside of a poll", g->id);
	if (!g->alive) violation("poll.dead-source", "callback for destroyed signal source %d", g->id);
	if (sig != g->sig) violation("poll.wrong-signal", "callback for signal source %d with signal %d instead of %d", g->id, sig, g->sig);
	// a signal between two instructions may count for the delivery under way or for the next one
	if (!g->pending && run.profile != "step") violation("poll.spurious-signal", "callback for signal source %d: signal %d was not raised", g->id, sig);
	g->pending = false;
	g->delivered++;
	if (g->delivered > g->raised) violation("poll.spurious-signal", "signal %d delivered %lu times, raised %lu times", sig, g->delivered, g->raised);
	st("check.sig-callback");
	if (rng.pct(40)) some_ops(50);
	raise_some(sigs_in_cb ? 25 : 0);
	return 0;
}

// ---------------------------------------------------------------- poll()
static int my_poll(struct pollfd *p, nfds_t n, int timeout) {
	polled = true;
	if (timeout != -1) violation("poll.timeout", "poll with timeout %d", timeout);
	if (rng.pct(15)) raise_some(50);
	if (rng.pct(15)) {
		if (rng.pct(50)) raise_some(60);
		tr("poll interrupted");
		st("poll.eintr");
		errno = EINTR;
		return -1;
	}
	// the set polled is the set of live sources
	std::vector<std::pair<int, int>> want, have;
	for (auto &s : srcs)
		if (s.alive) {
			int e = 0;
			if (s.mask & EVENT_READABLE) e |= POLLIN;
			if (s.mask & EVENT_WRITABLE) e |= POLLOUT;
			want.push_back({s.fd, e});
		}
	struct pollfd *pp = nullptr;
	for (nfds_t i = 0; i < n; i++) {
		p[i].revents = 0;
		if (p[i].fd < 0) continue;
		if (p[i].fd < 100) {
			if (io::owned.count(p[i].fd) && io::owned[p[i].fd] == io::PIPE) pp = &p[i];
			else violation("poll.set", "poll on descriptor %d, which no source has", p[i].fd);
			continue;
		}
		have.push_back({p[i].fd, p[i].events & (POLLIN | POLLOUT)});
	}
	std::sort(want.begin(), want.end());
	std::sort(have.begin(), have.end());
	if (want != have) {
		std::string a, b;
		for (auto &x : want) a += " " + std::to_string(x.first) + "/" + std::to_string(x.second);
		for (auto &x : have) b += " " + std::to_string(x.first) + "/" + std::to_string(x.second);
		violation("poll.set", "polled fd/events:%s; live sources:%s", b.c_str(), a.c_str());
	}
	st("check.poll-set");
	bool pipe_ready = false;
	if (pp) {
		struct pollfd q = {pp->fd, POLLIN, 0};
		poll(&q, 1, 0);
		pipe_ready = q.revents & POLLIN;
		pipe_r = pp->fd;
	}
	for (auto &g : sigs)
		if (g.alive && g.pending) {
			if (!pipe_ready || !(pp->events & POLLIN)) violation("poll.lost-signal", "poll would sleep although signal %d is pending", g.sig);
			st("check.signal-wakes");
		}
	// a read that was made to fail leaves the pipe full
	static uint64_t injected_before;
	if (io::injected != injected_before) idle_wakes = 0, raised_since = true;
	injected_before = io::injected;
	if (pipe_ready && !raised_since) {
		if (++idle_wakes > 2) violation("spin", "the poller keeps waking up without signals");
	} else idle_wakes = 0;
	raised_since = false;
	for (auto &s : srcs) s.expect = 0, s.updated = false;
	int ready = 0;
	for (int tries = 0;; tries++) {
		// readiness belongs to the descriptor: entries of the same one agree
		std::map<int, short> state;
		for (nfds_t i = 0; i < n; i++) {
			if (p[i].fd < 100) continue;
			auto it = state.find(p[i].fd);
			if (it == state.end()) {
				short r = 0;
				if (rng.pct(40)) r = (short)(POLLIN | POLLOUT) & (short)(rng.pct(70) ? 0x7fff : POLLOUT);
				if (rng.pct(8)) r |= (short)(rng.pct(60) ? POLLHUP : rng.pct(50) ? POLLERR : (POLLHUP | POLLERR));
				if (rng.pct(1)) r = POLLNVAL;
				if (tries > 2 && used_sigs.empty()) r |= POLLHUP;
				it = state.emplace(p[i].fd, r).first;
			}
			p[i].revents = (short)(it->second & (p[i].events | POLLERR | POLLHUP | POLLNVAL));
		}
		ready = 0;
		for (nfds_t i = 0; i < n; i++) ready += p[i].fd >= 100 && p[i].revents;
		if (ready || pipe_ready || tries > 3) break;
	}
	if (!ready && !pipe_ready) {
		// sleeping: a signal interrupts
		if (!used_sigs.empty()) do_raise(*used_sigs.begin());
		tr("poll interrupted while sleeping");
		errno = EINTR;
		return -1;
	}
	if (pp) pp->revents = pipe_ready ? POLLIN : 0;
	for (auto &s : srcs)
		if (s.alive)
			for (nfds_t i = 0; i < n; i++) {
				int e = 0;
				if (s.mask & EVENT_READABLE) e |= POLLIN;
				if (s.mask & EVENT_WRITABLE) e |= POLLOUT;
				if (p[i].fd == s.fd && (p[i].events & (POLLIN | POLLOUT)) == e) s.expect = p[i].revents;
			}
	tr("poll returns %d%s", ready + pipe_ready, pipe_ready ? " (pipe)" : "");
	st("poll.ready");
	return ready + pipe_ready;
}

// ---------------------------------------------------------------- single stepping
// The trap flag steps through the poller's instructions; calls out of it run
// at full speed up to a breakpoint at their return address.
static volatile bool step_on;
static volatile long step_count, step_at, step_at2;
static volatile int step_sig, step_sig2;
static volatile unsigned long step_rip;
static unsigned char *bp_at, bp_byte;
#if defined(__x86_64__)
static bool in_poller(unsigned long rip) { return rip >= (unsigned long)__start_polltext && rip < (unsigned long)__stop_polltext; }
static void bp_clear() {
	if (bp_at) *bp_at = bp_byte;
	bp_at = nullptr;
}
static void on_trap(int, siginfo_t *, void *uc) {
	auto *g = ((ucontext_t *)uc)->uc_mcontext.gregs;
	unsigned long rip = (unsigned long)g[REG_RIP];
	if (bp_at && rip == (unsigned long)bp_at + 1) {
		bp_clear();
		rip = (unsigned long)(g[REG_RIP] = (greg_t)(rip - 1));
		g[REG_EFL] |= 0x100l;
	}
	if (!step_on) { g[REG_EFL] &= ~0x100l; return; }
	if (in_poller(rip)) {
		step_count = step_count + 1;
		if (step_count == step_at) { step_rip = rip - (unsigned long)__start_polltext; do_raise(step_sig); }
		if (step_count == step_at2) do_raise(step_sig2);
		return;
	}
	unsigned long ret = *(unsigned long *)g[REG_RSP];
	if (in_poller(ret)) {
		bp_at = (unsigned char *)ret;
		bp_byte = *bp_at;
		*bp_at = 0xcc;
		g[REG_EFL] &= ~0x100l;
	}
}
static void set_tf(bool on) {
	if (on) asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
	else asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
}
static void step_init() {
	unsigned long a = (unsigned long)__start_polltext & ~4095ul, e = ((unsigned long)__stop_polltext + 4095) & ~4095ul;
	if (mprotect((void *)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC)) broken("mprotect: %s", strerror(errno));
	struct sigaction sa = {};
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGTRAP, &sa, nullptr);
}
#else
static void set_tf(bool) {}
static void bp_clear() {}
static void step_init() {}
#endif

static bool call_poll(bool step) {
	for (;;) {
		int live = 0;
		for (auto &s : srcs) live += s.alive;
		if (live || !used_sigs.empty()) break;
		op_add_fd();
	}
	round_no++;
	polled = false;
	in_round = 1;
	uint64_t bad = io::injected_alloc, badp = io::injected;
	if (step) {
		step_on = true;
		set_tf(true);
	}
	int r = poller_poll(&P);
	if (step) {
		set_tf(false);
		step_on = false;
		bp_clear();
	}
	in_round = 0;
	tr("poller_poll = %d", r);
	if (r != 0) {
		if (io::injected_alloc == bad && io::injected == badp) violation("poll.fails", "poller_poll failed for no reason");
		return false;
	}
	if (!polled) violation("poll.no-poll", "poller_poll returned without polling");
	// everything that was ready and still lives has been called
	for (auto &s : srcs)
		if (s.alive && s.expect && s.added_round != round_no && !s.updated && s.called_round != round_no)
			violation("poll.missed", "source %d (fd %d) was ready (%x) but not called", s.id, s.fd, s.expect);
	st("check.round");
	return true;
}

static void reset_signals() {
	for (int s : SIGS) signal(s, SIG_DFL);
}
static void run_case(uint64_t idx) {
	bool step = run.profile == "step";
	// in the step profile, 64 consecutive cases share a scenario and differ in where the signal hits
	rng.seed(run.seed * 1000003 + 77, step ? idx / 64 + (1ull << 40) : idx);
	run.case_cur = idx;
	trace_reset();
	io::reset();
	srcs.clear();
	sigs.clear();
	used_sigs.clear();
	round_no = in_round = idle_wakes = 0;
	raised_since = false;
	pipe_r = -1;
	step_on = false;
	io::call_limit = 60000;
	cpu_limit(60);
	max_srcs = rng.range(1, rng.pct(20) ? 12 : 5);
	sigs_in_cb = rng.pct(70);
	faults_on = !step && rng.pct(25);
	io::hk.poll = my_poll;
	io::hk.before = [&](const char *w, int) {
		if (step) return;
		if (!strcmp(w, "read") && rng.pct(20)) raise_some(60);
	};
	io::hk.fail = [&](const char *w, int) -> int {
		if (!faults_on) return 0;
		if (!strcmp(w, "poll") && rng.permille(5)) return ENOMEM;
		if (!strcmp(w, "read") && rng.permille(5)) return EINTR;
		return 0;
	};
	memset(&P, 0xA5, sizeof P);
	if (poller_init(&P) != 0) broken("poller_init failed");
	if (rng.pct(3))
		for (auto &k : io::owned)
			if (k.second == io::PIPE) fcntl(k.first, F_SETPIPE_SZ, 4096);
	if (faults_on) io::alloc_fail_permille = rng.range(0, 30);
	int n = rng.range(0, 3);
	ops_left = 1000;
	for (int i = 0; i < n; i++) op_add_fd();
	n = rng.range(0, 4);
	for (int i = 0; i < n; i++) op_add_sig();
	int rounds = step ? rng.range(1, 6) : rng.range(4, 40);
	ops_left = rounds * 4;
	int step_round = step ? rng.range(0, rounds - 1) : -1;
	for (int i = 0; i < rounds; i++) {
		io::call_limit = io::calls + 20000;
		some_ops(50);
		raise_some(20);
		if (rng.permille(1)) {
			int s = SIGS[rng.below(6)];
			for (int k = 0; k < 5000; k++) do_raise(s);
			st("sig.burst");
		}
		if (i == step_round && !used_sigs.empty()) {
			uint64_t k = idx % 64;
			Rng r2;
			r2.seed(run.seed * 31 + 5, idx);
			// the 64 cases of a scenario spread over its instructions
			step_count = 0;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
			const int spread = 12;
#else
			const int spread = 3;
#endif
#endif
			step_at = 1 + (long)k * spread + r2.range(0, spread - 1);
			step_at2 = r2.pct(30) ? step_at + r2.range(1, 40) : 0;
			auto pick = [&] { auto it = used_sigs.begin(); std::advance(it, r2.below((uint32_t)used_sigs.size())); return *it; };
			step_sig = pick();
			step_sig2 = pick();
			step_rip = 0;
			call_poll(true);
			if (step_rip) {
				st("step.interrupted");
				states.insert(step_rip * 64 + (uint64_t)step_sig);
				tr("signal %d interrupted the poller at +0x%lx", step_sig, (unsigned long)step_rip);
			}
			transitions.insert((uint64_t)step_count);
			st("step.instructions", (uint64_t)step_count);
		} else call_poll(false);
		uint64_t h = case_hash % 65536;
		int live = 0, dead = 0, pend = 0;
		for (auto &s : srcs) (s.alive ? live : dead)++;
		for (auto &g : sigs) pend += g.alive && g.pending;
		if (!step) { states.insert((uint64_t)(live * 1000 + std::min(dead, 20) * 10 + pend)); transitions.insert(h); }
	}
	// everything raised is delivered without further wake-ups
	faults_on = false;
	io::alloc_fail_permille = 0;
	sigs_in_cb = false;
	ops_left = 0;
	for (int i = 0; i < 8; i++) {
		bool any = false;
		for (auto &g : sigs) any |= g.alive && g.pending;
		if (!any) break;
		call_poll(false);
	}
	for (auto &g : sigs)
		if (g.alive && g.pending) violation("poll.lost-signal", "signal %d was raised but never delivered", g.sig);
	size_t left = 0;
	poller_finish(&P);
	for (auto &g : sigs)
		if (g.alive) {
			struct sigaction sa;
			sigaction(g.sig, nullptr, &sa);
			if (sa.sa_handler != SIG_DFL) violation("poll.finish", "signal %d still handled after poller_finish", g.sig);
		}
	left = io::allocs.size();
	if (left) violation("poll.leak", "%zu allocations left after poller_finish", left);
	st("check.finish");
	reset_signals();
	for (auto &k : io::owned) close(k.first);
	memcheck_report();
	cases_run++;
	if (!cases_seen.count(case_hash)) cases_seen.insert(case_hash);
	if (trace_total > 12) cases_nontrivial++;
	if (idx < 3 && sample.empty())
		for (size_t i = 0; i < trace_ring.size() && i < 60; i++) sample += trace_ring[i] + "; ";
}

int main(int argc, char **argv) {
	setup(argc, argv, "poll_sim");
	if (run.profile == "step") step_init();
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		run_case(i);
	}
	dump_stats();
	fflush(stdout);
	_exit(0);
}
