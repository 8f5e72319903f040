// The connection layer (common/connection.c) driven through its API against a
// FIFO model, over real socket pairs with injected partial transfers, EINTR,
// EAGAIN and errors; and over an in-memory transport for more than 2^32 bytes.
#include "io.hpp"
extern "C" {
#include "connection.h"
}
using namespace io;

static struct connection conn;
static int pfd; // peer end
static std::string out_model;        // accepted by put, not seen at the peer yet
static std::deque<uint64_t> ofd_model; // inodes accepted by put_fd, not seen at the peer yet
static std::string in_model;         // written by the peer, not yet taken by get
static size_t in_read;               // of those, bytes known to be inside the connection's buffer
static std::deque<uint64_t> ifd_model;
static size_t ifd_read;
static bool peer_closed, in_dead, out_dead;
static uint64_t fd_total;

static uint64_t ino_of(int fd) {
	struct stat s;
	if (fstat(fd, &s)) violation("conn.bad-fd", "descriptor %d is not open", fd);
	return s.st_ino;
}
static int newfd() {
	int fd = memfd_create("x", MFD_CLOEXEC);
	if (fd < 0) broken("memfd: %s", strerror(errno));
	return fd;
}
// the peer takes up to max bytes
static size_t peer_read(size_t max) {
	if (pfd < 0) return 0;
	char b[1024];
	char cb[CMSG_SPACE(sizeof(int) * 253)];
	struct iovec v = {b, std::min(max, sizeof b)};
	struct msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	m.msg_control = cb;
	m.msg_controllen = sizeof cb;
	ssize_t r = recvmsg(pfd, &m, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);
	if (r <= 0) return 0;
	if ((size_t)r > out_model.size() || memcmp(out_model.data(), b, (size_t)r))
		violation("conn.out-data", "the peer received %zd bytes that differ from those accepted by put (%zu outstanding)", r, out_model.size());
	out_model.erase(0, (size_t)r);
	st("peer.bytes", (uint64_t)r);
	for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
		if (h->cmsg_type == SCM_RIGHTS) {
			size_t n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
			for (size_t i = 0; i < n; i++) {
				int x;
				memcpy(&x, CMSG_DATA(h) + i * sizeof(int), sizeof x);
				if (ofd_model.empty() || ino_of(x) != ofd_model.front())
					violation("conn.out-fd", "the peer received a descriptor that is not the next one queued");
				ofd_model.pop_front();
				close(x);
				st("peer.fds");
			}
		}
	if (m.msg_flags & MSG_CTRUNC) broken("peer control truncated");
	return (size_t)r;
}
static void peer_write(size_t n, int nf) {
	if (pfd < 0 || peer_closed) return;
	std::string d;
	for (size_t i = 0; i < n; i++) d += (char)rng.below(256);
	std::vector<int> f;
	for (int i = 0; i < nf; i++) f.push_back(newfd());
	char cb[CMSG_SPACE(sizeof(int) * 253)];
	memset(cb, 0, sizeof cb);
	struct iovec v = {(void *)d.data(), d.size()};
	struct msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	if (nf) {
		m.msg_control = cb;
		m.msg_controllen = CMSG_SPACE(sizeof(int) * (size_t)nf);
		struct cmsghdr *h = CMSG_FIRSTHDR(&m);
		h->cmsg_level = SOL_SOCKET;
		h->cmsg_type = SCM_RIGHTS;
		h->cmsg_len = CMSG_LEN(sizeof(int) * (size_t)nf);
		memcpy(CMSG_DATA(h), f.data(), sizeof(int) * (size_t)nf);
	}
	ssize_t r = sendmsg(pfd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
	if (r > 0) {
		in_model += d.substr(0, (size_t)r);
		for (int i = 0; i < nf && i < 64; i++) ifd_model.push_back(ino_of(f[(size_t)i])); // the kernel drops what does not fit
		tr("peer writes %zd bytes, %d fds", r, nf);
	}
	for (int x : f) close(x);
}
static size_t owned_fds() { return owned.size() - 1 - 0; }

static void note(int op) {
	uint64_t h = 0xcbf29ce484222325ull;
	uint32_t x[6] = {(uint32_t)std::min<size_t>(in_read, 300) / 8, (uint32_t)std::min<size_t>(out_model.size(), 600) / 16,
			 (uint32_t)std::min<size_t>(ofd_model.size(), 70), (uint32_t)std::min<size_t>(ifd_read, 70), (uint32_t)in_dead,
			 (uint32_t)peer_closed};
	hash_add(h, x, sizeof x);
	states.insert(h);
	hash_add(h, &op, sizeof op);
	transitions.insert(h);
}

static size_t last_get; // size of the last successful get, for restore
static std::string last_data;

static void run_case(uint64_t idx) {
	run.case_cur = idx;
	rng.seed(run.seed, idx * 11 + 1);
	trace_reset();
	io::reset();
	call_limit = 100000;
	memset(&conn, 0, sizeof conn);
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, sv)) broken("socketpair");
	int small = 2304;
	setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
	conn.fd = sv[0];
	own(sv[0], SOCK);
	pfd = sv[1];
	out_model.clear(); ofd_model.clear(); in_model.clear(); ifd_model.clear();
	in_read = ifd_read = 0;
	peer_closed = in_dead = out_dead = false;
	last_get = 0;
	int pc_short = rng.pct(60) ? rng.range(0, 80) : 0;
	int pm_again = rng.pct(50) ? rng.range(0, 300) : 0;
	int pm_intr = rng.pct(50) ? rng.range(0, 300) : 0;
	int pm_err = rng.pct(10) ? rng.range(1, 20) : 0;
	hk.read_limit = [pc_short](int, size_t w) -> size_t { return w > 1 && rng.pct(pc_short) ? 1 + rng.below((uint32_t)w) : w; };
	hk.write_limit = [pc_short](int, size_t w) -> size_t { return w > 1 && rng.pct(pc_short) ? 1 + rng.below((uint32_t)w) : w; };
	int last_inject = 0;
	int nrecv = 0;
	hk.fail = [&](const char *w, int) -> int {
		last_inject = 0;
		if (strcmp(w, "recvmsg") && strcmp(w, "sendmsg")) return 0;
		if (pm_intr && rng.permille(pm_intr)) return last_inject = EINTR;
		if (pm_again && rng.permille(pm_again)) return last_inject = EAGAIN;
		if (pm_err && rng.permille(pm_err)) {
			static const int es[] = {ECONNRESET, EPIPE, ENOBUFS, ENOMEM, EIO};
			return last_inject = es[rng.below(5)];
		}
		return 0;
	};
	size_t got_bytes = 0, got_fds = 0;
	bool recv_eof = false;
	hk.recvd = [&](int, const char *, size_t n, int nf) {
		nrecv++;
		got_bytes += n;
		got_fds += (size_t)nf;
		if (n == 0) recv_eof = true;
	};
	size_t put_queue_fds = 0; // descriptors queued and still owned by the connection
	size_t wrote = 0;
	hk.sent = [&](int, const char *, size_t n) { wrote += n; put_queue_fds = 0; };
	cpu_limit(20);
	int steps = rng.range(10, 200);
	static int app = -1;
	int style = rng.range(0, 3);
	for (int i = 0; i < steps; i++) {
		int op = rng.range(0, 99);
		if (style == 1 && op < 40) op = rng.range(40, 99);
		if (style == 2 && op >= 55 && op < 75) op = rng.range(0, 39);
		note(op / 5);
		if (op < 22) { // put
			if (out_dead) continue;
			size_t n = rng.pct(70) ? (size_t)rng.range(0, 40) : rng.pct(80) ? (size_t)rng.range(0, 256) : (size_t)rng.range(250, 600);
			std::string d;
			for (size_t k = 0; k < n; k++) d += (char)rng.below(256);
			// The peer may see the queued bytes while put is running
			size_t before = out_model.size();
			wrote = 0;
			errno = 0;
			int r = connection_put(&conn, d.data(), n);
			tr("put(%zu) = %d errno %d", n, r, r ? errno : 0);
			if (r != 0 && r != -1) violation("conn.result", "put returned %d", r);
			if (r == 0) {
				if (n > 256) violation("conn.overflow", "put of %zu bytes succeeded", n);
				out_model += d;
			} else if (n <= 256 && last_inject == 0 && errno != EAGAIN && !peer_closed)
				violation("conn.put-fails", "put of %zu bytes failed with errno %d without a reason", n, errno);
			else if (errno == 0) violation("conn.errno", "put failed without errno");
			if (wrote > before) violation("conn.out-data", "put wrote %zu bytes but only %zu were outstanding", wrote, before);
			st(r == 0 ? "put.ok" : "put.fail");
		} else if (op < 28) { // put_fd
			if (out_dead) continue;
			int k = rng.pct(80) ? 1 : rng.range(1, 70);
			for (int q = 0; q < k; q++) {
				int fd = newfd();
				uint64_t ino = ino_of(fd);
				size_t q0 = put_queue_fds;
				int r = connection_put_fd(&conn, fd);
				if (r == 0) {
					own(fd, OTHER);
					ofd_model.push_back(ino);
					put_queue_fds++;
					st("put_fd.ok");
					if (put_queue_fds > 64) violation("conn.overflow", "more descriptors queued than fit");
				} else {
					if (r != -1) violation("conn.result", "put_fd returned %d", r);
					if (q0 < 64) violation("conn.put-fails", "put_fd failed with %zu descriptors queued", q0);
					if (errno != EOVERFLOW) violation("conn.errno", "put_fd failed with errno %d", errno);
					close(fd);
					st("put_fd.full");
				}
			}
			tr("put_fd x%d, %zu queued", k, put_queue_fds);
		} else if (op < 40) { // flush
			if (out_dead) continue;
			size_t before = out_model.size();
			(void)before;
			wrote = 0;
			errno = 0;
			int r = connection_flush(&conn);
			tr("flush = %d errno %d", r, r < 0 ? errno : 0);
			st(r < 0 ? "flush.fail" : "flush.ok");
			if (r < -1) violation("conn.result", "flush returned %d", r);
			if (r >= 0 && (size_t)r != wrote) violation("conn.result", "flush returned %d but wrote %zu bytes", r, wrote);
			if (r == -1 && !last_inject && errno != EAGAIN && !peer_closed) violation("conn.flush-fails", "flush failed with errno %d without a reason", errno);
			if (r == -1 && last_inject && errno != last_inject) violation("conn.errno", "flush failed with errno %d instead of %d", errno, last_inject);
			if (r == -1 && errno == EINTR) violation("conn.errno", "flush was interrupted");
			if (r >= 0) {
				// everything accepted has to be with the peer or in the socket
				size_t insock = 0;
				int q = 0;
				if (pfd >= 0 && ioctl(pfd, 0x541B /* FIONREAD */, &q) == 0) insock = (size_t)q;
				if (pfd >= 0 && insock != out_model.size())
					violation("conn.flush-lost", "after a successful flush %zu of %zu accepted bytes were written", insock, out_model.size());
				if (put_queue_fds && wrote) violation("conn.out-fd", "descriptors still queued after a successful flush");
				st("check.flush");
			}
		} else if (op < 55) { // read
			if (in_dead) continue;
			nrecv = 0;
			got_bytes = got_fds = 0;
			recv_eof = false;
			errno = 0;
			size_t avail = in_model.size() - in_read;
			int r = connection_read(&conn);
			int e = errno;
			tr("read = %d errno %d (%zu bytes, %zu fds)", r, r < 0 ? e : 0, got_bytes, got_fds);
			st(r < 0 ? "read.fail" : r == 0 ? "read.eof" : "read.ok");
			if (r < -1) violation("conn.result", "read returned %d", r);
			if (r == -1 && e == 0) violation("conn.errno", "read failed without errno");
			if (r == -1 && e == EINTR) violation("conn.errno", "read was interrupted");
			if (in_read == 256) {
				if (r != -1 || e != EOVERFLOW || nrecv) violation("conn.overflow", "read with a full buffer returned %d errno %d", r, e);
				st("read.full");
				last_get = 0; // keep the model simple
				goto next;
			}
			if (got_bytes) last_get = 0; // restoring is only possible until the next read
			if (r == -1 && e == EOVERFLOW) {
				if (ifd_read + got_fds <= 64) violation("conn.read-fails", "read reports an overflow with %zu descriptors", ifd_read + got_fds);
				in_dead = true; // the stream is broken from here on
				st("read.fd-overflow");
				goto next;
			}
			if (r == -1 && e != EAGAIN && !last_inject && !peer_closed) violation("conn.read-fails", "read failed with errno %d", e);
			if (r == -1 && e != EAGAIN) in_dead = true;
			if (r == -1 && got_bytes) violation("conn.in-lost", "read failed after taking %zu bytes", got_bytes);
			if (r == 0 && !recv_eof) violation("conn.in-data", "read reports end of file without one");
			if (recv_eof && r != 0) violation("conn.eof", "read returned %d at end of file", r);
			if (r == 0) in_dead = true;
			if (r > 0) {
				if (got_bytes > avail) broken("model lost bytes");
				in_read += got_bytes;
				ifd_read += got_fds;
				if ((size_t)r != in_read) violation("conn.result", "read returned %d but %zu bytes are buffered", r, in_read);
				if (ifd_read > 64) violation("conn.overflow", "%zu descriptors buffered", ifd_read);
			}
			if (got_bytes) last_get = 0;
		} else if (op < 75) { // get
			size_t n = rng.pct(70) ? (size_t)rng.range(0, 12) : (size_t)rng.range(0, 300);
			if (rng.pct(10)) n = in_read;
			std::string b(n + 16, '\x5a');
			errno = 0;
			int r = connection_get(&conn, &b[8], n);
			if (n <= in_read) {
				if (r == -1) violation("conn.result", "get(%zu) failed with %zu bytes buffered", n, in_read);
				if ((size_t)r != n) violation("conn.result", "get(%zu) returned %d", n, r);
				if (memcmp(&b[8], in_model.data(), n)) violation("conn.in-data", "get(%zu) returned other bytes than the peer sent", n);
				last_get = n;
				last_data = in_model.substr(0, n);
				in_model.erase(0, n);
				in_read -= n;
				st("get.ok");
			} else {
				if (r != -1 || errno != EAGAIN) violation("conn.result", "get(%zu) returned %d with %zu bytes buffered", n, r, in_read);
				st("get.short");
			}
			for (size_t k = 0; k < 8; k++)
				if (b[k] != 0x5a || b[b.size() - 1 - k] != 0x5a) violation("conn.in-data", "get wrote outside of its target");
		} else if (op < 80) { // get_fd
			int k = rng.pct(70) ? 1 : rng.range(1, 64);
			for (int q = 0; q < k; q++) {
				int fd = -7;
				errno = 0;
				int r = connection_get_fd(&conn, &fd);
				if (ifd_read) {
					if (r != 0) violation("conn.result", "get_fd failed with %zu descriptors buffered", ifd_read);
					if (!owned.count(fd) || ino_of(fd) != ifd_model.front()) violation("conn.in-fd", "get_fd returned another descriptor than the next one sent");
					ifd_model.pop_front();
					ifd_read--;
					owned.erase(fd);
					close(fd);
					st("get_fd.ok");
				} else if (r != -1 || errno != EAGAIN || fd != -7) violation("conn.result", "get_fd returned %d without a descriptor", r);
			}
		} else if (op < 84) { // restore
			if (!last_get) continue;
			size_t n = rng.pct(60) ? last_get : 1 + rng.below((uint32_t)last_get);
			connection_restore(&conn, n);
			in_model.insert(0, last_data.substr(last_data.size() - n));
			in_read += n;
			last_get = 0;
			st("restore");
		} else if (op < 92) {
			if (!peer_closed && in_model.size() < 1500) peer_write((size_t)rng.range(1, rng.pct(80) ? 40 : 400), rng.pct(85) ? 0 : rng.pct(85) ? rng.range(1, 4) : rng.range(10, 80));
		} else if (op < 97) {
			peer_read(rng.pct(50) ? (size_t)rng.range(1, 20) : 1024);
		} else if (op == 97 && rng.pct(20) && !peer_closed) {
			tr("peer closes");
			if (rng.pct(50)) {
				shutdown(pfd, SHUT_WR);
			} else {
				while (peer_read(1024)) {}
				close(pfd);
				pfd = -1;
				out_dead = true;
			}
			peer_closed = true;
		} else {
			size_t p = connection_pending(&conn);
			if (p != in_read) violation("conn.result", "pending returned %zu instead of %zu", p, in_read);
		}
	next:
		if (in_read > 256) violation("conn.overflow", "more than 256 bytes buffered");
		if (!in_dead && !out_dead && owned.size() != 1 + put_queue_fds + ifd_read)
			violation("conn.fd-leak", "%zu descriptors are open instead of 1 + %zu queued + %zu received", owned.size(), put_queue_fds, ifd_read);
	}
	(void)app;
	(void)fd_total;
	// finish: everything accepted arrives, everything received can be taken
	hk.fail = nullptr;
	if (!out_dead) {
		for (int k = 0; k < 200; k++) {
			while (peer_read(1024)) {}
			errno = 0;
			int r = connection_flush(&conn);
			if (r >= 0) break;
			if (errno != EAGAIN) { out_dead = true; break; }
		}
		while (peer_read(1024)) {}
		if (!out_dead && !out_model.empty()) violation("conn.out-lost", "%zu accepted bytes never arrived at the peer", out_model.size());
		if (!out_dead && ofd_model.size() != put_queue_fds) violation("conn.out-fd", "%zu accepted descriptors never arrived at the peer", ofd_model.size() - put_queue_fds);
		st("check.out-complete");
	}
	connection_close_fds(&conn);
	if (owned.size() != 1) violation("conn.fd-leak", "%zu descriptors left after close_fds", owned.size() - 1);
	st("check.fds-closed");
	cpu_limit(0);
	close(conn.fd);
	if (pfd >= 0) close(pfd);
	memcheck_report();
	cases_run++;
	if (cases_seen.insert(case_hash).second) cases_nontrivial++;
	if (sample.empty())
		for (size_t i = 0; i < trace_ring.size() && i < 50; i++) sample += trace_ring[i] + "; ";
}

// More than 2^32 bytes through both directions of one connection.
static void wrap_case(uint64_t idx) {
	run.case_cur = idx;
	rng.seed(run.seed, idx * 13 + 5);
	trace_reset();
	io::reset();
	memset(&conn, 0, sizeof conn);
	conn.fd = 0;
	own(0, SOCK);
	track = false;
	uint64_t sent_total = 0, put_total = 0, fed_total = 0, got_total = 0;
	auto byte = [](uint64_t i) -> char { return (char)(i * 0x9e3779b97f4a7c15ull >> 56); };
	static char pat[1 << 16];
	for (size_t i = 0; i < sizeof pat; i++) pat[i] = byte(i);
	// the stream is the pattern repeated; compare with memcmp in pieces
	auto cmp = [&](const char *d, size_t n, uint64_t at) {
		while (n) {
			size_t o = at % sizeof pat, k = std::min(n, sizeof pat - o);
			if (memcmp(d, pat + o, k)) return false;
			d += k; n -= k; at += k;
		}
		return true;
	};
	auto fill = [&](char *d, size_t n, uint64_t at) {
		while (n) {
			size_t o = at % sizeof pat, k = std::min(n, sizeof pat - o);
			memcpy(d, pat + o, k);
			d += k; n -= k; at += k;
		}
	};
	bool partial = false;
	hk.sendmsg = [&](int, const struct msghdr *m) -> ssize_t {
		size_t all = 0, lim = (size_t)-1;
		for (size_t i = 0; i < m->msg_iovlen; i++) all += m->msg_iov[i].iov_len;
		if (partial) {
			if (rng.pct(10)) { errno = EAGAIN; return -1; }
			lim = 1 + rng.below((uint32_t)all);
		}
		if (all > 256) violation("conn.out-data", "sendmsg of %zu bytes", all);
		size_t n = 0;
		for (size_t i = 0; i < m->msg_iovlen && lim; i++) {
			size_t k = std::min(lim, m->msg_iov[i].iov_len);
			if (!cmp((char *)m->msg_iov[i].iov_base, k, sent_total))
				violation("conn.out-data", "wrong bytes sent at stream position %llu", (unsigned long long)sent_total);
			sent_total += k;
			n += k;
			lim -= k;
		}
		return (ssize_t)n;
	};
	hk.recvmsg = [&](int, struct msghdr *m) -> ssize_t {
		size_t n = 0;
		m->msg_controllen = 0;
		if (partial && rng.pct(10)) { errno = EAGAIN; return -1; }
		size_t lim = partial ? 1 + rng.below(256) : (size_t)-1;
		for (size_t i = 0; i < m->msg_iovlen && lim; i++) {
			size_t k = std::min(lim, m->msg_iov[i].iov_len);
			fill((char *)m->msg_iov[i].iov_base, k, fed_total);
			fed_total += k;
			n += k;
			lim -= k;
		}
		return (ssize_t)n;
	};
	const uint64_t W = 1ull << 32;
	size_t step1 = (size_t)rng.range(180, 256);
	uint64_t margin = 400000;
	auto put_n = [&](size_t n) {
		char b[256];
		fill(b, n, put_total);
		if (connection_put(&conn, b, n) == -1) {
			if (!partial || errno != EAGAIN) violation("conn.put-fails", "put failed at stream position %llu", (unsigned long long)put_total);
			return;
		}
		put_total += n;
	};
	auto flush = [&] {
		if (connection_flush(&conn) == -1) {
			if (!partial || errno != EAGAIN) violation("conn.flush-fails", "flush failed at stream position %llu", (unsigned long long)put_total);
			return;
		}
		if (sent_total != put_total) violation("conn.flush-lost", "flush succeeded with %llu of %llu bytes sent", (unsigned long long)sent_total, (unsigned long long)put_total);
	};
	auto read = [&] {
		int r = connection_read(&conn);
		if (r == -1 && !(partial && errno == EAGAIN) && errno != EOVERFLOW) violation("conn.read-fails", "read failed at position %llu: %s", (unsigned long long)fed_total, strerror(errno));
		if (r == -1 && errno == EOVERFLOW && fed_total - got_total != 256) violation("conn.overflow", "read overflows with %llu bytes buffered", (unsigned long long)(fed_total - got_total));
		if (r >= 0 && (uint64_t)r != fed_total - got_total) violation("conn.result", "read returned %d with %llu bytes buffered", r, (unsigned long long)(fed_total - got_total));
	};
	auto get = [&](size_t n) {
		char b[256];
		uint64_t have = fed_total - got_total;
		int r = connection_get(&conn, b, n);
		if (n > have) {
			if (r != -1) violation("conn.result", "get of %zu with %llu buffered succeeded", n, (unsigned long long)have);
			return;
		}
		if (r != (int)n) violation("conn.result", "get(%zu) returned %d", n, r);
		if (!cmp(b, n, got_total)) violation("conn.in-data", "wrong bytes at stream position %llu", (unsigned long long)got_total);
		got_total += n;
		if (partial && rng.pct(20) && n) {
			size_t k = 1 + rng.below((uint32_t)n);
			connection_restore(&conn, k);
			got_total -= k;
			st("wrap.restore");
		}
		if (connection_pending(&conn) != fed_total - got_total) violation("conn.result", "pending is wrong at position %llu", (unsigned long long)got_total);
	};
	// get close to the wrap fast, cross it with all kinds of operations
	while (put_total < W - margin) { put_n(step1); if (put_total % 3 == 0) flush(); }
	flush();
	while (got_total < W - margin) { read(); get(std::min<uint64_t>(step1, fed_total - got_total)); get(fed_total - got_total); }
	partial = true;
	while (put_total < W + margin || got_total < W + margin) {
		if (put_total < W + margin) {
			put_n(rng.pct(5) ? 256 : rng.below(100));
			if (rng.pct(40)) flush();
		}
		if (got_total < W + margin) {
			if (rng.pct(60)) read();
			get(rng.below(rng.pct(20) ? 256 : 60));
			if (fed_total - got_total > 200) get(fed_total - got_total);
		}
		st("wrap.ops");
		note((int)((put_total >> 4) & 15));
	}
	partial = false;
	flush();
	memcheck_report();
	cases_run++;
	case_hash = sent_total * 31 + got_total;
	cases_seen.insert(case_hash);
	cases_nontrivial++;
	st("wrap.bytes", sent_total + got_total);
}

int main(int argc, char **argv) {
	setup(argc, argv, "conn_sim");
	double t0 = now_s();
	for (uint64_t i = run.case_from; i < run.case_from + run.case_count; i++) {
		if (run.budget_s > 0 && now_s() - t0 > run.budget_s) break;
		if (run.profile == "wrap") wrap_case(i);
		else run_case(i);
	}
	dump_stats();
	fflush(stdout);
	_exit(0);
}
