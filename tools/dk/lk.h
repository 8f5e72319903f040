// Demo kit for libseat's seatd backend: a scripted server runs in a thread.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

#include "libseat.h"
#include "protocol.h"

static char lk_log[65536];
static void lk_ev(const char *s) { strncat(lk_log, s, sizeof lk_log - strlen(lk_log) - 2); strcat(lk_log, " "); }
#define LK_FAIL(...) do { printf("DEMO FAILED: " __VA_ARGS__); printf("\nevents: %s\n", lk_log); fflush(stdout); _exit(1); } while (0)
#define LK_CHECK(c, ...) do { if (!(c)) LK_FAIL(__VA_ARGS__); } while (0)

// --- server side ---
static int lk_listen = -1, lk_conn = -1;
static char lk_path[108];
static void lk_write(int fd, const void *p, size_t n) { if (send(fd, p, n, MSG_NOSIGNAL) != (ssize_t)n) {} }
// appends a message to a buffer
static size_t lk_msg(char *b, int op, const void *body, size_t n) {
	struct proto_header h = {.opcode = (uint16_t)op, .size = (uint16_t)n};
	memcpy(b, &h, sizeof h);
	if (n) memcpy(b + sizeof h, body, n);
	return sizeof h + n;
}
static size_t lk_opened_msg(char *b) {
	char m[8] = {6, 0, 's', 'e', 'a', 't', '0', 0};
	return lk_msg(b, SERVER_SEAT_OPENED, m, 8);
}
static void lk_reply(int fd, int op) { char b[64]; lk_write(fd, b, lk_msg(b, op, NULL, 0)); }
static void lk_reply_error(int fd, int err) { char b[64]; lk_write(fd, b, lk_msg(b, SERVER_ERROR, &err, sizeof err)); }
static void lk_send_fd(int fd, const void *p, size_t n, int passed) {
	char c[CMSG_SPACE(sizeof(int))] = {0};
	struct iovec v = {(void *)p, n};
	struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
	struct cmsghdr *h = CMSG_FIRSTHDR(&m);
	h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(h), &passed, sizeof(int));
	sendmsg(fd, &m, MSG_NOSIGNAL);
}
static bool lk_read_n(int fd, void *p, size_t n) {
	char *c = p;
	while (n) {
		ssize_t r = recv(fd, c, n, 0);
		if (r <= 0) return false;
		c += r; n -= (size_t)r;
	}
	return true;
}
// reads one request; the opcode, or -1 at the end of the connection
static int lk_request(int fd, char *body, size_t *len) {
	struct proto_header h;
	static char dummy[65536];
	if (!lk_read_n(fd, &h, sizeof h)) return -1;
	if (!lk_read_n(fd, body ? body : dummy, h.size)) return -1;
	if (len) *len = h.size;
	return h.opcode;
}
static void (*lk_script)(int fd);
static void *lk_thread(void *x) {
	(void)x;
	lk_conn = accept(lk_listen, NULL, NULL);
	lk_script(lk_conn);
	return NULL;
}
static pthread_t lk_t;
static void lk_serve(void (*script)(int fd)) {
	char dir[] = "/tmp/lkXXXXXX";
	if (!mkdtemp(dir)) _exit(9);
	snprintf(lk_path, sizeof lk_path, "%s/sock", dir);
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	strcpy(a.sun_path, lk_path);
	lk_listen = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (bind(lk_listen, (struct sockaddr *)&a, sizeof a) || listen(lk_listen, 5)) _exit(9);
	setenv("SEATD_SOCK", lk_path, 1);
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	lk_script = script;
	pthread_create(&lk_t, NULL, lk_thread, NULL);
}
static void lk_cleanup(void) {
	unlink(lk_path);
	*strrchr(lk_path, '/') = 0;
	rmdir(lk_path);
}
// --- application side ---
static void lk_enable(struct libseat *s, void *d) { lk_ev("enable"); }
static void lk_disable(struct libseat *s, void *d) { lk_ev("disable"); }
static const struct libseat_seat_listener lk_listener = {.enable_seat = lk_enable, .disable_seat = lk_disable};
static bool lk_readable(struct libseat *s, int ms) {
	struct pollfd p = {.fd = libseat_get_fd(s), .events = POLLIN};
	return poll(&p, 1, ms) > 0;
}
