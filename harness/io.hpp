// Light-weight stand-ins for the redirected libc calls, used by the library
// and unit harnesses: real sockets underneath, with accounting of descriptors
// and allocations, hooks, and injected faults and partial transfers.
#pragma once
#include <limits.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

#include <algorithm>
#include <deque>
#include <unordered_map>

#include "common.hpp"

namespace io {
using namespace vh;
enum Kind { SOCK, RECVD, PIPE, OTHER };
inline std::map<int, Kind> owned;     // descriptors the code under test owns
inline std::unordered_map<void *, size_t> allocs;
inline bool track = true;
struct Hooks {
	std::function<int(struct pollfd *, nfds_t, int)> poll;
	std::function<int(int, int, int)> socket;
	std::function<int(int, const struct sockaddr *, socklen_t)> connect;
	std::function<int(const char *, int)> open;
	std::function<void(int, const char *, size_t, int)> recvd;  // fd, data, n, number of fds
	std::function<void(int, const char *, size_t)> sent;
	std::function<void(const char *, int)> before;   // before any call on a descriptor
	std::function<int(const char *, int)> fail;      // errno to inject, or 0
	std::function<size_t(int, size_t)> read_limit, write_limit;
	std::function<void(int)> closing;
	std::function<ssize_t(int, const struct msghdr *)> sendmsg; // replaces the transport
	std::function<ssize_t(int, struct msghdr *)> recvmsg;
};
inline Hooks hk;
inline uint64_t calls = 0;
inline uint64_t call_limit = 0; // a case making more calls than this spins
inline int alloc_countdown = -1, alloc_fail_permille = 0;
inline uint64_t injected = 0;
inline uint64_t injected_alloc = 0;

inline void reset() {
	owned.clear();
	allocs.clear();
	hk = Hooks();
	calls = 0;
	call_limit = 0;
	alloc_countdown = -1;
	alloc_fail_permille = 0;
	injected = injected_alloc = 0;
}
struct SaveErrno { int e = errno; ~SaveErrno() { errno = e; } };
inline void step(const char *what, int fd) {
	SaveErrno save;
	calls++;
	if (call_limit && calls > call_limit) violation("spin", "more than %llu system calls in one case", (unsigned long long)call_limit);
	if (hk.before) hk.before(what, fd);
}
inline int fault(const char *what, int fd) {
	if (!hk.fail) return 0;
	int e = hk.fail(what, fd);
	if (e) {
		injected++;
		st((std::string("fault.") + what).c_str());
		tr("fault: %s(%d) fails with %s", what, fd, strerror(e));
	}
	return e;
}
inline void own(int fd, Kind k) {
	if (fd >= 0) owned[fd] = k;
}
inline void disown(int fd) { owned.erase(fd); }
inline bool alloc_fails(size_t) {
	if (alloc_countdown >= 0 && alloc_countdown-- == 0) { injected_alloc++; injected++; st("fault.alloc"); tr("fault: allocation fails"); return true; }
	if (alloc_fail_permille && rng.permille(alloc_fail_permille)) { injected_alloc++; injected++; st("fault.alloc"); tr("fault: allocation fails"); return true; }
	return false;
}
inline void need(const char *what, int fd) {
	if (fd == -1) return; // fails harmlessly
	if (!owned.count(fd)) violation("fd.bad-use", "%s() on descriptor %d, which is not open here", what, fd);
}
} // namespace io

extern "C" {
using namespace io;
#define F(e) do { int e_ = (e); if (e_) { errno = e_; return -1; } } while (0)

int sim_close(int fd) {
	step("close", fd);
	if (fd == -1) { errno = EBADF; return -1; } // harmless
	if (!owned.count(fd)) violation("fd.double-close", "close(%d) of a descriptor that is not open here", fd);
	SaveErrno save;
	if (hk.closing) hk.closing(fd);
	owned.erase(fd);
	tr("close(%d)", fd);
	close(fd);
	return 0;
}
int sim_dup(int fd) { step("dup", fd); F(fault("dup", fd)); int n = dup(fd); own(n, OTHER); return n; }
int sim_dup2(int fd, int n) { int r = dup2(fd, n); own(r, OTHER); return r; }
int sim_dup3(int fd, int n, int f) { int r = dup3(fd, n, f); own(r, OTHER); return r; }
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int e_ = fault("fcntl", fd); if (e_) { errno = e_; return -1; } }
	int r = fcntl(fd, cmd, a);
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) own(r, OTHER);
	return r;
}
int sim_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl(fd, cmd, a);
}
int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
static int x_open(const char *p, int flags) {
	step("open", -1);
	F(fault("open", -1));
	if (!hk.open) { errno = ENOENT; return -1; }
	int r = hk.open(p, flags);
	own(r, OTHER);
	return r;
}
int sim_open(const char *p, int f, ...) { return x_open(p, f); }
int sim_open64(const char *p, int f, ...) { return x_open(p, f); }
int sim___open_2(const char *p, int f) { return x_open(p, f); }
int sim_openat(int, const char *p, int f, ...) { return x_open(p, f); }
int sim_openat64(int, const char *p, int f, ...) { return x_open(p, f); }
char *sim_realpath(const char *p, char *o) { return realpath(p, o); }
char *sim___realpath_chk(const char *p, char *o, size_t) { return realpath(p, o); }
char *sim_canonicalize_file_name(const char *p) { return realpath(p, nullptr); }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
	step("accept", fd);
	F(fault("accept", fd));
	int r = accept4(fd, a, l, fl);
	own(r, SOCK);
	return r;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return sim_accept4(fd, a, l, 0); }

ssize_t sim_recvmsg(int fd, struct msghdr *msg, int flags) {
	step("recvmsg", fd);
	need("recvmsg", fd);
	F(fault("recvmsg", fd));
	if (io::hk.recvmsg) return io::hk.recvmsg(fd, msg);
	if (msg->msg_control) memset(msg->msg_control, 0xAA, msg->msg_controllen);
	size_t want = 0;
	for (size_t i = 0; i < msg->msg_iovlen; i++) want += msg->msg_iov[i].iov_len;
	size_t lim = hk.read_limit ? hk.read_limit(fd, want) : want;
	struct msghdr m = *msg;
	std::vector<struct iovec> v;
	size_t left = lim;
	for (size_t i = 0; i < msg->msg_iovlen && left; i++) {
		struct iovec x = msg->msg_iov[i];
		if (x.iov_len > left) x.iov_len = left;
		left -= x.iov_len;
		v.push_back(x);
	}
	if (want) { m.msg_iov = v.data(); m.msg_iovlen = v.size(); }
	ssize_t r = recvmsg(fd, &m, flags);
	int e = errno;
	if (r >= 0) {
		msg->msg_controllen = m.msg_controllen;
		msg->msg_flags = m.msg_flags;
		int nf = 0;
		if (m.msg_controllen)
			for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
				if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS) {
					size_t n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
					for (size_t i = 0; i < n; i++) {
						int x;
						memcpy(&x, CMSG_DATA(h) + i * sizeof(int), sizeof x);
						own(x, RECVD);
						nf++;
					}
				}
		std::string d;
		size_t got = (size_t)r;
		for (auto &x : v) {
			size_t t = std::min(got, x.iov_len);
			d.append((char *)x.iov_base, t);
			got -= t;
		}
		tr("recvmsg(%d) = %zd fds %d", fd, r, nf);
		if (hk.recvd) hk.recvd(fd, d.data(), d.size(), nf);
	} else tr("recvmsg(%d) = -1 %s", fd, strerror(e));
	errno = e;
	return r;
}
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) {
	struct iovec io = {buf, n};
	struct msghdr m = {};
	m.msg_iov = &io;
	m.msg_iovlen = 1;
	return sim_recvmsg(fd, &m, flags);
}
ssize_t sim_read(int fd, void *buf, size_t n) {
	step("read", fd);
	need("read", fd);
	if (owned[fd] == SOCK) return sim_recv(fd, buf, n, 0);
	F(fault("read", fd));
	return read(fd, buf, n);
}
ssize_t sim_sendmsg(int fd, const struct msghdr *msg, int flags) {
	step("sendmsg", fd);
	if (fd != -1) need("sendmsg", fd);
	F(fault("sendmsg", fd));
	if (io::hk.sendmsg) return io::hk.sendmsg(fd, msg);
	size_t want = 0;
	for (size_t i = 0; i < msg->msg_iovlen; i++) want += msg->msg_iov[i].iov_len;
	size_t lim = hk.write_limit ? hk.write_limit(fd, want) : want;
	if (want && !lim) { errno = EAGAIN; return -1; }
	struct msghdr m = *msg;
	std::vector<struct iovec> v;
	size_t left = lim;
	for (size_t i = 0; i < msg->msg_iovlen && left; i++) {
		struct iovec x = msg->msg_iov[i];
		if (x.iov_len > left) x.iov_len = left;
		left -= x.iov_len;
		v.push_back(x);
	}
	if (want) { m.msg_iov = v.data(); m.msg_iovlen = v.size(); }
	if (!(flags & MSG_NOSIGNAL) && fd != -1) violation("sig.pipe", "sendmsg without MSG_NOSIGNAL on descriptor %d", fd);
	ssize_t r = sendmsg(fd, &m, flags | MSG_NOSIGNAL);
	int e = errno;
	tr("sendmsg(%d) = %zd", fd, r);
	if (r > 0 && hk.sent) {
		std::string d;
		size_t got = (size_t)r;
		for (auto &x : v) {
			size_t t = std::min(got, x.iov_len);
			d.append((char *)x.iov_base, t);
			got -= t;
		}
		hk.sent(fd, d.data(), d.size());
	}
	errno = e;
	return r;
}
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) {
	struct iovec io = {(void *)buf, n};
	struct msghdr m = {};
	m.msg_iov = &io;
	m.msg_iovlen = 1;
	return sim_sendmsg(fd, &m, flags);
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
	step("write", fd);
	need("write", fd);
	if (owned[fd] == SOCK) return sim_send(fd, buf, n, MSG_NOSIGNAL);
	F(fault("write", fd));
	return write(fd, buf, n);
}
int sim_poll(struct pollfd *p, nfds_t n, int timeout) {
	step("poll", -1);
	F(fault("poll", -1));
	return io::hk.poll ? io::hk.poll(p, n, timeout) : poll(p, n, timeout);
}
int sim___poll_chk(struct pollfd *p, nfds_t n, int timeout, size_t) { return sim_poll(p, n, timeout); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) {
	return sim_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}
int sim_pipe2(int p[2], int flags) {
	step("pipe", -1);
	F(fault("pipe", -1));
	int r = pipe2(p, flags);
	if (r == 0) own(p[0], PIPE), own(p[1], PIPE);
	return r;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int sim_socket(int d, int t, int pr) {
	step("socket", -1);
	F(fault("socket", -1));
	int r = io::hk.socket ? io::hk.socket(d, t, pr) : socket(d, t, pr);
	own(r, SOCK);
	return r;
}
int sim_connect(int fd, const struct sockaddr *a, socklen_t l) {
	step("connect", fd);
	need("connect", fd);
	F(fault("connect", fd));
	return io::hk.connect ? io::hk.connect(fd, a, l) : connect(fd, a, l);
}
int sim_socketpair(int d, int t, int pr, int sv[2]) {
	step("socketpair", -1);
	F(fault("socketpair", -1));
	int r = socketpair(d, t, pr, sv);
	if (r == 0) own(sv[0], SOCK), own(sv[1], SOCK);
	return r;
}
int sim_shutdown(int fd, int how) { step("shutdown", fd); need("shutdown", fd); return shutdown(fd, how); }
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l) { return getsockopt(fd, lvl, opt, v, l); }
#undef F

void *sim_malloc(size_t n) {
	if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
	void *p = malloc(n ? n : 1);
	memset(p, 0xA5, n);
	if (track) allocs[p] = n;
	return p;
}
void *sim_calloc(size_t a, size_t b) {
	if (alloc_fails(a * b)) { errno = ENOMEM; return nullptr; }
	void *p = calloc(a ? a : 1, b ? b : 1);
	if (track) allocs[p] = a * b;
	return p;
}
void *sim_realloc(void *o, size_t n) {
	if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
	if (o) allocs.erase(o);
	void *p = realloc(o, n ? n : 1);
	if (track) allocs[p] = n;
	return p;
}
void *sim_reallocarray(void *o, size_t a, size_t b) { return sim_realloc(o, a * b); }
void sim_free(void *p) {
	SaveErrno save;
	if (p) allocs.erase(p);
	free(p);
}
char *sim_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = (char *)sim_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}
char *sim_strndup(const char *s, size_t m) {
	size_t n = strnlen(s, m);
	char *p = (char *)sim_malloc(n + 1);
	if (p) memcpy(p, s, n), p[n] = 0;
	return p;
}
}
