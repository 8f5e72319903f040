// Shared plumbing of all harnesses: seeded choices, trace ring, statistics,
// violation reporting.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#endif

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vh {

struct Rng {
	uint64_t s[2] = {1, 2};
	static uint64_t mix(uint64_t &x) {
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	void seed(uint64_t a, uint64_t b) {
		uint64_t x = a * 0x2545F4914F6CDD1Dull + b;
		s[0] = mix(x);
		s[1] = mix(x);
		if (!s[0] && !s[1]) s[0] = 1;
	}
	uint64_t next() {
		uint64_t s1 = s[0], s0 = s[1], r = s0 + s1;
		s[0] = s0;
		s1 ^= s1 << 23;
		s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
		return r;
	}
	// uniform in [0,n)
	uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 16) % n) : 0; }
	int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
	bool pct(int p) { return (int)below(100) < p; }
	bool permille(int p) { return (int)below(1000) < p; }
};

struct Run {
	std::string harness, profile = "default";
	uint64_t seed = 1;
	uint64_t case_from = 0, case_count = 1, case_cur = 0;
	double budget_s = 0; // stop starting cases after this much wall time (0: none)
	std::string out;     // statistics file
	std::string scratch; // scratch directory
	std::string vfile;   // violation file
	bool verbose = false;
	std::vector<std::string> extra;
};
inline Run run;
inline Rng rng;

// ---- trace ring ----
static const size_t TRACE_MAX = 600;
inline std::vector<std::string> trace_ring;
inline size_t trace_total = 0;
inline uint64_t case_hash = 0;
inline void hash_add(uint64_t &h, const void *p, size_t n) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) {
		h ^= c[i];
		h *= 0x100000001b3ull;
	}
}
inline void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void tr(const char *fmt, ...) {
	char buf[400];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (trace_ring.size() < TRACE_MAX) trace_ring.emplace_back(buf);
	else trace_ring[trace_total % TRACE_MAX] = buf;
	trace_total++;
	hash_add(case_hash, buf, strlen(buf));
	if (run.verbose) fprintf(stdout, "  %s\n", buf);
}
inline void trace_reset() {
	trace_ring.clear();
	trace_total = 0;
	case_hash = 0xcbf29ce484222325ull;
}

// ---- statistics ----
inline std::map<std::string, uint64_t> stats;
inline std::unordered_set<uint64_t> states, transitions, cases_seen;
inline uint64_t cases_run = 0, cases_nontrivial = 0;
inline std::string sample;
inline void st(const char *k, uint64_t n = 1) { stats[k] += n; }

inline std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}
inline void dump_stats() {
	if (run.out.empty()) return;
	FILE *f = fopen(run.out.c_str(), "w");
	if (!f) return;
	fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"last_case\":%llu,\"stats\":{", (unsigned long long)cases_run,
		(unsigned long long)cases_nontrivial, (unsigned long long)run.case_cur);
	bool first = true;
	for (auto &kv : stats) {
		fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
		first = false;
	}
	fprintf(f, "},\"sample\":\"%s\",", jesc(sample).c_str());
	auto dumpset = [&](const char *name, const std::unordered_set<uint64_t> &s) {
		fprintf(f, "\"%s\":[", name);
		bool fst = true;
		size_t n = 0;
		for (auto h : s) {
			if (n++ > 200000) break;
			fprintf(f, "%s\"%llx\"", fst ? "" : ",", (unsigned long long)h);
			fst = false;
		}
		fprintf(f, "]");
	};
	dumpset("states", states);
	fprintf(f, ",");
	dumpset("transitions", transitions);
	fprintf(f, ",");
	dumpset("case_hashes", cases_seen);
	fprintf(f, "}\n");
	fclose(f);
}
inline void dump_trace(FILE *f) {
	size_t n = trace_ring.size();
	size_t start = trace_total > TRACE_MAX ? trace_total % TRACE_MAX : 0;
	if (trace_total > TRACE_MAX) fprintf(f, "... %zu earlier events dropped ...\n", trace_total - TRACE_MAX);
	for (size_t i = 0; i < n; i++) fprintf(f, "%s\n", trace_ring[(start + i) % n].c_str());
}
inline std::string plan_note;
inline bool reported = false;
inline void write_violation(const char *tag, const char *msg) {
	if (reported) return;
	reported = true;
	FILE *f = run.vfile.empty() ? stdout : fopen(run.vfile.c_str(), "w");
	if (!f) f = stdout;
	fprintf(f, "TAG %s\nCASE %llu\nMSG %s\n", tag, (unsigned long long)run.case_cur, msg);
	fprintf(f, "REPLAY --profile %s --seed %llu --from %llu --count 1", run.profile.c_str(),
		(unsigned long long)run.seed, (unsigned long long)run.case_cur);
	for (auto &e : run.extra) fprintf(f, " %s", e.c_str());
	fprintf(f, "\n");
	if (!plan_note.empty()) fprintf(f, "PLAN %s\n", plan_note.c_str());
	fprintf(f, "TRACE\n");
	dump_trace(f);
	if (f != stdout) fclose(f);
	else fflush(f);
}
// A property violation: record and end this worker; the supervisor decides.
[[noreturn]] inline void violation(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void violation(const char *tag, const char *fmt, ...) {
	char buf[1200];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	write_violation(tag, buf);
	dump_stats();
	_exit(10);
}
// A failure of the harness itself, never counted as a violation.
[[noreturn]] inline void broken(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void broken(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stdout, "HARNESS-ERROR case %llu: ", (unsigned long long)run.case_cur);
	vfprintf(stdout, fmt, ap);
	fprintf(stdout, "\n");
	va_end(ap);
	dump_trace(stdout);
	fflush(stdout);
	_exit(20);
}
// At the end of a case: what Valgrind's memcheck, if it runs this process, has reported since the last case.
inline void memcheck_report() {
#ifdef VALGRIND_COUNT_ERRORS
	if (!RUNNING_ON_VALGRIND) return;
	static unsigned seen = 0;
	st("memcheck.cases");
	unsigned n = VALGRIND_COUNT_ERRORS;
	if (n != seen) violation("sanitizer", "memcheck reports %u use(s) of memory without a value or not owned (see log)", n - seen);
#endif
}
inline const char *crash_tag = "crash";
inline void on_death() {
	write_violation("sanitizer", "sanitizer report (see log)");
	dump_stats();
}
inline void on_signal(int sig) {
	char b[100];
	snprintf(b, sizeof b, "process died of signal %d (%s)", sig, strsignal(sig));
	write_violation(sig == SIGVTALRM || sig == SIGPROF ? "hang" : crash_tag, b);
	dump_stats();
	_exit(10);
}
inline void cpu_limit(int seconds) {
	struct itimerval it = {};
	it.it_value.tv_sec = seconds;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline double now_s() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}
inline void setup(int argc, char **argv, const char *name) {
	run.harness = name;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--profile") run.profile = val();
		else if (a == "--seed") run.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--from") run.case_from = strtoull(val().c_str(), 0, 10);
		else if (a == "--count") run.case_count = strtoull(val().c_str(), 0, 10);
		else if (a == "--budget") run.budget_s = atof(val().c_str());
		else if (a == "--out") run.out = val();
		else if (a == "--scratch") run.scratch = val();
		else if (a == "--vfile") run.vfile = val();
		else if (a == "-v") run.verbose = true;
		else run.extra.push_back(a);
	}
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	int sigs[] = {SIGABRT, SIGPIPE, SIGVTALRM, SIGALRM, SIGILL, SIGFPE};
	for (int s : sigs) {
		struct sigaction sa = {};
		sa.sa_handler = on_signal;
		sigaction(s, &sa, nullptr);
	}
}
inline bool has_extra(const char *s) {
	for (auto &e : run.extra)
		if (e == s) return true;
	return false;
}
} // namespace vh
