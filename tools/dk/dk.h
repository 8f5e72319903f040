// Demo kit: runs seatd's server in this process against a tiny stand-in for
// the kernel (consoles and devices are memfds, ioctls are recorded).
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <linux/vt.h>
#include <linux/kd.h>
#include <linux/input.h>
#include <unistd.h>

#include "client.h"
#include "log.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

static struct server dk_server;
static char dk_log[1 << 20]; // one event per line
static size_t dk_len;
static int dk_vt = 1;        // the foreground VT
static bool dk_idle;
static char dk_name[4096][128];
static int dk_mode[64], dk_kd[64], dk_kb[64];

static void dk_ev(const char *fmt, ...) {
	va_list a;
	va_start(a, fmt);
	dk_len += (size_t)vsnprintf(dk_log + dk_len, sizeof dk_log - dk_len, fmt, a);
	va_end(a);
	dk_log[dk_len++] = '\n';
	dk_log[dk_len] = 0;
}
static void dk_clear(void) { dk_len = 0; dk_log[0] = 0; }
static bool dk_saw(const char *s) { return strstr(dk_log, s) != NULL; }
static bool dk_before(const char *a, const char *b) {
	char *x = strstr(dk_log, a), *y = strstr(dk_log, b);
	return x && y && x < y;
}
static void dk_fail(const char *fmt, ...) {
	va_list a;
	va_start(a, fmt);
	printf("DEMO FAILED: ");
	vprintf(fmt, a);
	printf("\nevents:\n%s", dk_log);
	va_end(a);
	fflush(stdout);
	_exit(1);
}
#define DK_CHECK(c, ...) do { if (!(c)) dk_fail(__VA_ARGS__); } while (0)

int __real_open(const char *p, int f, ...);
int __real_close(int fd);
int __real_ioctl(int fd, unsigned long r, ...);
int __real_poll(struct pollfd *p, nfds_t n, int t);
char *__real_realpath(const char *p, char *o);
static int dk_open_fail;
static const char *dk_fail_revoke;
static int dk_fail_kb;
int __wrap_open(const char *p, int f, ...) {
	if (strncmp(p, "/dev/", 5)) return __real_open(p, f, 0600);
	if (dk_open_fail && !strncmp(p, "/dev/tty", 8)) { dk_open_fail--; errno = EMFILE; return -1; }
	int fd = memfd_create("dk", MFD_CLOEXEC);
	snprintf(dk_name[fd], sizeof dk_name[fd], "%s", p);
	if (!strcmp(p, "/dev/tty0")) snprintf(dk_name[fd], sizeof dk_name[fd], "/dev/tty%d", dk_vt);
	if (strncmp(p, "/dev/tty", 8)) dk_ev("open %s", p);
	return fd;
}
int __wrap_open64(const char *p, int f, ...) { return __wrap_open(p, f); }
int __wrap_close(int fd) {
	if (fd >= 0 && dk_name[fd][0] && strncmp(dk_name[fd], "/dev/tty", 8)) dk_ev("close %s", dk_name[fd]);
	if (fd >= 0) dk_name[fd][0] = 0;
	return __real_close(fd);
}
char *__wrap_realpath(const char *p, char *o) {
	if (strncmp(p, "/dev/", 5)) return __real_realpath(p, o);
	strcpy(o, p);
	char *d;
	while ((d = strstr(o, "/../"))) { // every component is a directory here
		char *b = d;
		while (b > o && *--b != '/') {}
		memmove(b, d + 3, strlen(d + 3) + 1);
	}
	return o;
}
int __wrap_ioctl(int fd, unsigned long r, ...) {
	va_list a;
	va_start(a, r);
	void *arg = va_arg(a, void *);
	va_end(a);
	const char *n = dk_name[fd];
	if (!n[0]) return __real_ioctl(fd, r, arg);
	int t = 0;
	if (sscanf(n, "/dev/tty%d", &t) == 1) {
		switch (r) {
		case VT_GETSTATE: ((struct vt_stat *)arg)->v_active = (unsigned short)dk_vt; return 0;
		case VT_ACTIVATE: dk_ev("vt-activate %d", (int)(intptr_t)arg); return 0;
		case VT_RELDISP: dk_ev("vt-reldisp %d", (int)(intptr_t)arg); return 0;
		case VT_SETMODE: dk_mode[t & 63] = ((struct vt_mode *)arg)->mode; dk_ev("vt-mode %d %d", t, dk_mode[t & 63]); return 0;
		case KDSETMODE: dk_kd[t & 63] = (int)(intptr_t)arg; dk_ev("kd-mode %d %d", t, dk_kd[t & 63]); return 0;
		case KDSKBMODE: if (dk_fail_kb) { errno = EIO; return -1; } dk_kb[t & 63] = (int)(intptr_t)arg; dk_ev("kb-mode %d %d", t, dk_kb[t & 63]); return 0;
		case KDGKBMODE: *(int *)arg = dk_kb[t & 63]; return 0;
		}
		return 0;
	}
	if (r == EVIOCREVOKE && dk_fail_revoke && !strcmp(n, dk_fail_revoke)) { dk_ev("revoke-fails %s", n); errno = ENODEV; return -1; }
	if (r == EVIOCREVOKE) dk_ev("revoke %s", n);
	else if (r == _IO('d', 0x1e)) dk_ev("set-master %s", n);
	else if (r == _IO('d', 0x1f)) dk_ev("drop-master %s", n);
	else dk_ev("ioctl %lx %s", r, n);
	return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	(void)t;
	int r = __real_poll(p, n, 0);
	if (r == 0) dk_idle = true;
	return r;
}
static void dk_pump(void) {
	dk_idle = false;
	for (int i = 0; i < 100000 && !dk_idle && dk_server.running; i++)
		if (poller_poll(&dk_server.poller) == -1) break;
	DK_CHECK(dk_idle || !dk_server.running, "the server never becomes idle");
}
static void dk_start(const char *vtbound) {
	setenv("SEATD_VTBOUND", vtbound, 1);
	signal(SIGPIPE, SIG_IGN);
	alarm(60);
	DK_CHECK(server_init(&dk_server) == 0, "server_init");
}
static int dk_connect(void) {
	int sv[2];
	DK_CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0, "socketpair");
	fcntl(sv[1], F_SETFL, O_NONBLOCK);
	DK_CHECK(server_add_client(&dk_server, sv[0]) == 0, "server_add_client");
	return sv[1];
}
static void dk_raw(int c, const void *p, size_t n) { DK_CHECK(send(c, p, n, MSG_NOSIGNAL) == (ssize_t)n, "send"); }
static void dk_send(int c, int op, const void *body, size_t n) {
	char b[70000];
	struct proto_header h = {.opcode = (uint16_t)op, .size = (uint16_t)n};
	memcpy(b, &h, sizeof h);
	if (n) memcpy(b + sizeof h, body, n);
	dk_raw(c, b, sizeof h + n);
}
static void dk_send_int(int c, int op, int v) { dk_send(c, op, &v, sizeof v); }
static void dk_send_open(int c, const char *path) {
	char b[300];
	uint16_t l = (uint16_t)(strlen(path) + 1);
	memcpy(b, &l, 2);
	memcpy(b + 2, path, l);
	dk_send(c, CLIENT_OPEN_DEVICE, b, 2u + l);
}
// Receives what is there; events become "N:enable " etc. in out, -1 on EOF.
static int dk_last_fd = -1, dk_last_id, dk_last_err;
static char dk_in[64][65536];
static size_t dk_inlen[64];
static int dk_recv(int c, char *out) {
	int eof = 0;
	out[0] = 0;
	for (;;) {
		char cb[CMSG_SPACE(sizeof(int) * 253)];
		struct iovec v = {dk_in[c & 63] + dk_inlen[c & 63], 4096};
		struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
		ssize_t r = recvmsg(c, &m, MSG_CMSG_CLOEXEC);
		if (r == 0) eof = -1;
		if (r <= 0) break;
		for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h)) memcpy(&dk_last_fd, CMSG_DATA(h), sizeof(int));
		dk_inlen[c & 63] += (size_t)r;
		char *p = dk_in[c & 63];
		while (dk_inlen[c & 63] >= 4) {
			struct proto_header h;
			memcpy(&h, p, 4);
			if (dk_inlen[c & 63] < 4u + h.size) break;
			switch (h.opcode) {
			case SERVER_SEAT_OPENED: strcat(out, "opened "); break;
			case SERVER_SEAT_CLOSED: strcat(out, "closed "); break;
			case SERVER_DEVICE_OPENED: memcpy(&dk_last_id, p + 4, 4); sprintf(out + strlen(out), "device(%d) ", dk_last_id); break;
			case SERVER_DEVICE_CLOSED: strcat(out, "device-closed "); break;
			case SERVER_SESSION_SWITCHED: strcat(out, "switched "); break;
			case SERVER_SEAT_DISABLED: strcat(out, "disabled-ack "); break;
			case SERVER_DISABLE_SEAT: strcat(out, "disable "); break;
			case SERVER_ENABLE_SEAT: strcat(out, "enable "); break;
			case SERVER_PONG: strcat(out, "pong "); break;
			case SERVER_ERROR: memcpy(&dk_last_err, p + 4, 4); sprintf(out + strlen(out), "error(%d) ", dk_last_err); break;
			default: sprintf(out + strlen(out), "?%x ", h.opcode);
			}
			dk_inlen[c & 63] -= 4u + h.size;
			memmove(p, p + 4 + h.size, dk_inlen[c & 63]);
		}
	}
	return eof;
}
static char dk_buf[65536];
static const char *dk_ask(int c) { dk_pump(); return dk_recv(c, dk_buf) == -1 ? strcat(dk_buf, "EOF") : dk_buf; }
#define DK_EXPECT(c, want) do { const char *g_ = dk_ask(c); DK_CHECK(!strcmp(g_, want), "line %d: expected \"%s\", got \"%s\"", __LINE__, want, g_); } while (0)
