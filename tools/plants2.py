PLANTS = [
dict(id="trailing-bytes", property="C07",
 edits=[("seatd/client.c", "		if (msg.path_len != size - sizeof msg) {", "		if (msg.path_len > size - sizeof msg) {")],
 needs="an open_device message whose path is shorter than the rest of the message",
 breaks="a malformed message is accepted and its trailing bytes are executed as further requests instead of ending the connection",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	char b[64] = {18, 0};
	strcpy(b + 2, "/dev/input/event0");
	struct proto_header h = {.opcode = CLIENT_PING, .size = 0};
	memcpy(b + 20, &h, 4);
	dk_send(a, CLIENT_OPEN_DEVICE, b, 24);
	DK_EXPECT(a, "EOF");
	return 0;
}
'''),
dict(id="fds-sent-twice", property="C11",
 edits=[("common/connection.c", """		connection_buffer_close_fds(&connection->fds_out);
		connection->out.tail += len;
	}
	connection->want_flush = 0;
""", """		connection->out.tail += len;
	}
	connection_buffer_close_fds(&connection->fds_out);
	connection->want_flush = 0;
""")],
 needs="a partial write of a message that carries a descriptor",
 breaks="the descriptor is sent once more with the rest of the message",
 srcs="common/connection.c common/linked_list.c", flags="-Wl,--wrap=sendmsg", demo=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include "connection.h"
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) {
	struct msghdr x = *m;
	struct iovec v = m->msg_iov[0];
	if (v.iov_len > 3) v.iov_len = 3;
	x.msg_iov = &v;
	x.msg_iovlen = 1;
	return __real_sendmsg(fd, &x, f);
}
int main(void) {
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 9;
	alarm(10);
	struct connection c = {.fd = sv[0]}, d = {.fd = sv[1]};
	if (connection_put_fd(&c, dup(0)) == -1 || connection_put(&c, "12345678", 8) == -1 || connection_flush(&c) == -1) return 2;
	char b[8];
	while (connection_pending(&d) < 8)
		if (connection_read(&d) <= 0) return 3;
	int fd, n = 0;
	connection_get(&d, b, 8);
	while (connection_get_fd(&d, &fd) == 0) n++;
	if (n != 1 || memcmp(b, "12345678", 8)) { printf("DEMO FAILED: %d descriptors\n", n); return 1; }
	return 0;
}
'''),
dict(id="overflow-fd-leak", property="C05",
 edits=[("common/connection.c", "			for (size_t idx = 0; idx < size; idx++) {", "			for (size_t idx = 1; idx < size; idx++) {")],
 needs="a client that pushes more descriptors at the daemon than it keeps",
 breaks="one descriptor per overflow stays open in the daemon for ever",
 demo=r'''
static int fds(void) { int n = 0; for (int i = 0; i < 1000; i++) n += fcntl(i, F_GETFD) != -1; return n; }
int main(void) {
	dk_start("0");
	int before = fds();
	for (int round = 0; round < 3; round++) {
		int a = dk_connect();
		for (int i = 0; i < 3; i++) {
			int f[30];
			for (int k = 0; k < 30; k++) f[k] = 0;
			char cb[CMSG_SPACE(sizeof f)] = {0};
			struct proto_header h = {.opcode = CLIENT_PING, .size = 0};
			struct iovec v = {&h, 4};
			struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
			struct cmsghdr *c = CMSG_FIRSTHDR(&m);
			c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof f);
			memcpy(CMSG_DATA(c), f, sizeof f);
			sendmsg(a, &m, MSG_NOSIGNAL);
			dk_pump();
		}
		close(a);
		dk_pump();
	}
	DK_CHECK(fds() == before, "%d descriptors before, %d afterwards", before, fds());
	return 0;
}
'''),
dict(id="writable-forever", property="C12",
 edits=[("seatd/client.c", "		} else if (len >= 0) {", "		} else if (len > 0) {")],
 needs="a stalled client whose backlog another client's request flushes in the very round in which its socket becomes writable",
 breaks="the daemon keeps waiting for writability it has no use for and spins at full load",
 demo=r'''
static bool backlog(void) {
	struct seat *s = server_get_seat(&dk_server, "seat0");
	for (struct linked_list *e = s->clients.next; e != &s->clients; e = e->next)
		if (((struct client *)e)->connection.want_flush) return true;
	return false;
}
int main(void) {
	dk_start("0");
	log_init();
	int a = dk_connect(), b = dk_connect(); // b's source is handled before a's
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened enable ");
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened ");
	dk_send_int(b, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(b, "disable switched ");
	for (int i = 0; i < 100000 && !backlog(); i++) { dk_send(a, CLIENT_PING, 0, 0); dk_pump(); }
	DK_CHECK(backlog(), "no backlog");
	static char drain[1 << 20];
	while (recv(a, drain, sizeof drain, 0) > 0) {}
	dk_send(b, CLIENT_DISABLE_SEAT, 0, 0);
	dk_pump();
	return 0;
}
'''),
dict(id="drain-after-handlers", property="C13",
 edits=[("seatd/poller.c", """		char garbage[8];
		while (read(poller->signal_fds[0], &garbage, sizeof garbage) != -1) {
		}

""", ""), ("seatd/poller.c", """			bps->raised = false;
			bps->func(bps->signal, bps->data);
		}
""", """			bps->raised = false;
			bps->func(bps->signal, bps->data);
		}

		char garbage[8];
		while (read(poller->signal_fds[0], &garbage, sizeof garbage) != -1) {
		}
""")],
 needs="a signal raised while another signal's handler runs, after its own turn in that round",
 breaks="the event loop goes to sleep although a signal is waiting to be handled",
 srcs="seatd/poller.c common/linked_list.c", demo=r'''
#include <signal.h>
#include <stdio.h>
#include <unistd.h>
#include "poller.h"
static int n1, n2;
static int h1(int s, void *d) { (void)s; (void)d; if (n1++ == 0) raise(SIGUSR2); return 0; }
static int h2(int s, void *d) { (void)s; (void)d; n2++; return 0; }
static void late(int s) { (void)s; _exit(1); }
int main(void) {
	static struct poller p;
	if (poller_init(&p) == -1) return 9;
	// in whatever order the loop looks at its sources
	if (!poller_add_signal(&p, SIGUSR1, h1, NULL) || !poller_add_signal(&p, SIGUSR2, h2, NULL)) return 9;
	signal(SIGALRM, late);
	struct sigaction sa = {.sa_handler = late};
	sigaction(SIGALRM, &sa, NULL);
	alarm(5);
	raise(SIGUSR1);
	while (n2 == 0)
		if (poller_poll(&p) == -1) return 2;
	return 0;
}
'''),
dict(id="dup-failure-keeps-device", property="C14",
 edits=[("seatd/client.c", """		log_errorf("Could not dup fd: %s", strerror(errno));
		seat_close_device(client, device);
		goto fail;
""", """		log_errorf("Could not dup fd: %s", strerror(errno));
		goto fail;
""")],
 needs="the daemon running out of descriptors exactly between opening a device and duplicating it",
 breaks="the client is told that the open failed but the device stays open on its behalf",
 demo=r'''
#include <sys/resource.h>
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	int k = dup(0);
	close(k);
	struct rlimit r, o;
	getrlimit(RLIMIT_NOFILE, &o);
	r = o;
	r.rlim_cur = (rlim_t)k + 1;
	setrlimit(RLIMIT_NOFILE, &r);
	dk_send_open(a, "/dev/input/event3");
	DK_EXPECT(a, "error(24) ");
	setrlimit(RLIMIT_NOFILE, &o);
	DK_CHECK(!dk_saw("open /dev/input/event3") || dk_saw("close /dev/input/event3"), "the device stays open");
	return 0;
}
'''),
dict(id="follow-symlink", property="C15",
 edits=[("seatd/seatd.c", "	if (lstat(SEATD_DEFAULTPATH, &st) == 0) {", "	if (stat(SEATD_DEFAULTPATH, &st) == 0) {")],
 needs="a symbolic link to some socket at the socket path when seatd starts",
 breaks="seatd removes something that is not a socket from its socket path and starts",
 sh=r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -U_FORTIFY_SOURCE -w -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE '-DSEATD_VERSION="v"' '-DSEATD_DEFAULTPATH="seatd.sock"' -I. -Iinclude -o "$T/seatd" \
  seatd/*.c common/*.c || { echo "demo does not build"; exit 1; }
cd "$T" || exit 1
python3 -c 'import socket; s = socket.socket(socket.AF_UNIX); s.bind("other.sock")'
ln -s other.sock seatd.sock
SEATD_VTBOUND=0 timeout -s TERM 1 ./seatd -l silent
rc=$?
[ -L seatd.sock ] || { echo "DEMO FAILED: the link is gone"; exit 1; }
[ -S other.sock ] || { echo "DEMO FAILED: the other socket is gone"; exit 1; }
[ $rc = 1 ] || { echo "DEMO FAILED: exit status $rc"; exit 1; }
exit 0
'''),
dict(id="ready-before-socket", property="C15",
 edits=[("seatd/seatd.c", """	log_info("seatd started");

	if (readiness != -1) {
		if (write(readiness, "\\n", 1) == -1) {
			log_errorf("Could not write readiness signal: %s\\n", strerror(errno));
		}
		close(readiness);
	}

""", """	log_info("seatd started");

"""), ("seatd/seatd.c", """	int ret = 1;
	int socket_fd = open_socket(SEATD_DEFAULTPATH, uid, gid);
""", """	if (readiness != -1) {
		if (write(readiness, "\\n", 1) == -1) {
			log_errorf("Could not write readiness signal: %s\\n", strerror(errno));
		}
		close(readiness);
	}

	int ret = 1;
	int socket_fd = open_socket(SEATD_DEFAULTPATH, uid, gid);
""")],
 needs="a launcher that connects at once, or a socket that cannot be created",
 breaks="readiness is announced before clients can connect, even if they never can",
 sh=r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -U_FORTIFY_SOURCE -w -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE '-DSEATD_VERSION="v"' '-DSEATD_DEFAULTPATH="missing/seatd.sock"' -I. -Iinclude -o "$T/seatd" \
  seatd/*.c common/*.c || { echo "demo does not build"; exit 1; }
cd "$T" || exit 1
SEATD_VTBOUND=0 timeout -s TERM 2 ./seatd -l silent -n 7 7> ready
rc=$?
[ -s ready ] && { echo "DEMO FAILED: readiness was announced"; exit 1; }
[ $rc = 1 ] || { echo "DEMO FAILED: exit status $rc"; exit 1; }
exit 0
'''),
dict(id="eof-is-ready", property="C16",
 edits=[("seatd-launch/seatd-launch.c", "		if (fd.revents & POLLIN) {", "		if (fd.revents != 0) {"),
        ("seatd-launch/seatd-launch.c", "			} else if (n > 0) {", "			} else if (n >= 0) {")],
 needs="a seatd that exits without becoming ready while the launcher waits, with another seatd's socket at the path",
 breaks="the end of the readiness channel counts as readiness: the other seatd's socket is handed to the user and the command runs",
 sh=r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '#!/bin/sh\nsleep 0.4\nexit 1\n' > "$T/stub"
chmod 755 "$T/stub"
gcc -std=c11 -g -w -D_XOPEN_SOURCE=700 '-DSEATD_VERSION="v"' "-DSEATD_DEFAULTPATH=\"$T/sock\"" "-DSEATD_INSTALLPATH=\"$T/stub\"" -I. -Iinclude \
  -o "$T/launch" seatd-launch/seatd-launch.c || { echo "demo does not build"; exit 1; }
cd "$T" || exit 1
touch sock
chmod 0640 sock
timeout 20 ./launch -- touch ran 2> err
rc=$?
[ -e ran ] && { echo "DEMO FAILED: the command ran"; exit 1; }
[ "$(stat -c %a sock)" = 640 ] || { echo "DEMO FAILED: the socket was changed"; exit 1; }
[ $rc = 1 ] || { echo "DEMO FAILED: exit status $rc"; exit 1; }
exit 0
'''),
dict(id="seatd-inherits-env", property="C16",
 edits=[("seatd-launch/seatd-launch.c", "		char *env[1] = {NULL};\n", "		extern char **environ;\n"),
        ("seatd-launch/seatd-launch.c", "execve(SEATD_INSTALLPATH, command, env);", "execve(SEATD_INSTALLPATH, command, environ);")],
 needs="a variable that matters to a privileged program in the invoking user's environment",
 breaks="the privileged seatd runs in the environment of the invoking user",
 sh=r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat > "$T/stub.c" <<'E'
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int main(int c, char **v) {
	extern char **environ;
	FILE *f = fopen("env", "w");
	for (char **e = environ; *e; e++) fprintf(f, "%s\n", *e);
	fclose(f);
	fopen("sock", "w");
	if (write(atoi(v[2]), "\n", 1) != 1) return 1;
	pause();
	return 0;
}
E
gcc -w -o "$T/stub" "$T/stub.c"
gcc -std=c11 -g -w -D_XOPEN_SOURCE=700 '-DSEATD_VERSION="v"' "-DSEATD_DEFAULTPATH=\"$T/sock\"" "-DSEATD_INSTALLPATH=\"$T/stub\"" -I. -Iinclude \
  -o "$T/launch" seatd-launch/seatd-launch.c || { echo "demo does not build"; exit 1; }
cd "$T" || exit 1
SEATD_VTBOUND=0 timeout 20 ./launch -- true 2> err || { echo "DEMO FAILED: launch failed"; exit 1; }
[ -s env ] && { echo "DEMO FAILED: seatd's environment:"; cat env; exit 1; }
exit 0
'''),
dict(id="half-reply", property="C17", kit="lib",
 edits=[("libseat/backend/seatd.c", "			} else if (connection_pending(&backend->connection) >= header.size) {",
         "			} else if (connection_pending(&backend->connection) + sizeof header >= header.size) {")],
 needs="a reply whose header arrives before its body",
 breaks="the library takes half a reply for a whole one and gives up the connection",
 demo=r'''
static void script(int fd) {
	char b[64];
	if (lk_request(fd, NULL, NULL) != CLIENT_OPEN_SEAT) return;
	lk_write(fd, b, lk_opened_msg(b));
	if (lk_request(fd, NULL, NULL) != CLIENT_OPEN_DEVICE) return;
	int id = 7;
	lk_msg(b, SERVER_DEVICE_OPENED, &id, 4);
	lk_write(fd, b, 4);
	usleep(200000);
	lk_send_fd(fd, b + 4, 4, 0);
	lk_request(fd, NULL, NULL);
	lk_reply(fd, SERVER_SEAT_CLOSED);
}
int main(void) {
	lk_serve(script);
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	lk_cleanup();
	LK_CHECK(s, "open_seat");
	int fd = -1, id = libseat_open_device(s, "/dev/x", &fd);
	LK_CHECK(id == 7 && fd >= 0, "open_device returned %d: %s", id, strerror(errno));
	LK_CHECK(libseat_close_seat(s) == 0, "close_seat");
	return 0;
}
'''),
dict(id="pong-keeps-waiting", property="C18", kit="lib",
 edits=[("libseat/backend/seatd.c", "			backend->awaiting_pong = false;", "			backend->awaiting_pong = !linked_list_empty(&backend->pending_events);")],
 needs="an event that arrives just before the answer to a wake-up request, and later one that arrives with a reply",
 breaks="after the first such event the library believes that a wake-up is still on its way and never asks for another one",
 demo=r'''
static void script(int fd) {
	char b[64];
	if (lk_request(fd, NULL, NULL) != CLIENT_OPEN_SEAT) return;
	lk_write(fd, b, lk_opened_msg(b));
	int r, ev = SERVER_ENABLE_SEAT;
	while ((r = lk_request(fd, NULL, NULL)) != -1) {
		size_t n = 0;
		int e = EBADF;
		if (r == CLIENT_PING) { // with another event just before the answer
			n += lk_msg(b + n, ev, NULL, 0);
			n += lk_msg(b + n, SERVER_PONG, NULL, 0);
			ev = ev == SERVER_ENABLE_SEAT ? SERVER_DISABLE_SEAT : SERVER_ENABLE_SEAT;
			lk_write(fd, b, n);
			continue;
		}
		if (r == CLIENT_CLOSE_SEAT) { lk_reply(fd, SERVER_SEAT_CLOSED); continue; }
		n += lk_msg(b + n, ev, NULL, 0);
		n += lk_msg(b + n, SERVER_ERROR, &e, 4);
		ev = ev == SERVER_ENABLE_SEAT ? SERVER_DISABLE_SEAT : SERVER_ENABLE_SEAT;
		lk_write(fd, b, n);
	}
}
int main(void) {
	lk_serve(script);
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	lk_cleanup();
	LK_CHECK(s, "open_seat");
	const char *want[] = {"enable disable ", "enable disable ", "enable disable "};
	for (int i = 0; i < 3; i++) {
		lk_log[0] = 0;
		libseat_close_device(s, 5);
		LK_CHECK(lk_readable(s, 1000), "event %d: no wake-up", i);
		while (lk_readable(s, 100)) LK_CHECK(libseat_dispatch(s, 0) >= 0, "dispatch");
		LK_CHECK(!strcmp(lk_log, want[i]), "event %d not delivered", i);
	}
	libseat_close_seat(s);
	return 0;
}
'''),
dict(id="oversize-reply", property="C19", kit="lib",
 edits=[("libseat/backend/seatd.c", "	if ((!variable && header.size != expected_size) || (variable && header.size < expected_size)) {",
         "	if (header.size < expected_size) {")],
 needs="a server whose replies are longer than they should be",
 breaks="an invalid reply counts as success and its remaining bytes are executed as events",
 demo=r'''
static void script(int fd) {
	char b[64];
	if (lk_request(fd, NULL, NULL) != CLIENT_OPEN_SEAT) return;
	lk_write(fd, b, lk_opened_msg(b));
	if (lk_request(fd, NULL, NULL) != CLIENT_CLOSE_DEVICE) return;
	char body[4];
	lk_msg(body, SERVER_ENABLE_SEAT, NULL, 0);
	lk_write(fd, b, lk_msg(b, SERVER_DEVICE_CLOSED, body, 4));
	while (lk_request(fd, NULL, NULL) != -1) {}
}
int main(void) {
	lk_serve(script);
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	lk_cleanup();
	LK_CHECK(s, "open_seat");
	LK_CHECK(libseat_close_device(s, 3) == -1, "an oversized reply was taken for success");
	LK_CHECK(libseat_dispatch(s, 0) == -1, "the connection is still in use");
	LK_CHECK(lk_log[0] == 0, "events were made up");
	libseat_close_seat(s);
	return 0;
}
'''),
dict(id="backend-prefix", property="C20", kit="lib",
 edits=[("libseat/libseat.c", "strcmp(backend_type, iter->name) != 0", "strncmp(backend_type, iter->name, strlen(backend_type)) != 0")],
 needs="LIBSEAT_BACKEND set to the beginning of a backend's name, or to nothing",
 breaks="an unknown backend name selects some backend instead of failing",
 demo=r'''
int main(void) {
	setenv("LIBSEAT_BACKEND", "no", 1);
	errno = 0;
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	LK_CHECK(s == NULL && errno == EINVAL, "backend 'no': %p, %s", (void *)s, strerror(errno));
	setenv("LIBSEAT_BACKEND", "noop", 1);
	s = libseat_open_seat(&lk_listener, NULL);
	LK_CHECK(s, "backend 'noop'");
	libseat_close_seat(s);
	return 0;
}
'''),
dict(id="server-holds-client-end", property="C21",
 edits=[("libseat/backend/seatd.c", """	} else if (pid == 0) {
		close(fds[1]);
		int fd = fds[0];
""", """	} else if (pid == 0) {
		int fd = fds[0];
""")],
 needs="an application that is killed, or exits without closing its seat",
 breaks="the embedded server never notices that its application is gone and keeps running with its devices",
 sh=r'''#!/bin/bash
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 -DLIBSEAT=1 -DBUILTIN_ENABLED=1 '-DSEATD_DEFAULTPATH="/nonexistent/s"' -I. -Iinclude \
  -o "$T/demo" "$H/demo.c" common/*.c seatd/poller.c seatd/seat.c seatd/client.c seatd/server.c libseat/libseat.c libseat/backend/seatd.c libseat/backend/noop.c \
  || { echo "demo does not build"; exit 1; }
cd "$T" && SEATD_VTBOUND=0 LIBSEAT_BACKEND=builtin timeout 60 ./demo
''', files={"demo.c": r'''
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libseat.h"
static void ev(struct libseat *s, void *d) { (void)s; (void)d; }
static const struct libseat_seat_listener l = {.enable_seat = ev, .disable_seat = ev};
int main(void) {
	int p[2];
	if (pipe(p)) return 9;
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	pid_t app = fork();
	if (app == 0) {
		close(p[0]); // p[1] stays open in the application and its server
		struct libseat *s = libseat_open_seat(&l, NULL);
		if (!s) _exit(3);
		for (int i = 0; i < 3; i++) libseat_dispatch(s, 100);
		kill(getpid(), SIGKILL);
	}
	close(p[1]);
	int st;
	waitpid(app, &st, 0);
	if (!WIFSIGNALED(st)) { printf("DEMO FAILED: application ended with %x\n", st); return 1; }
	struct pollfd f = {.fd = p[0], .events = POLLIN};
	if (poll(&f, 1, 5000) != 1) {
		printf("DEMO FAILED: the server outlives its application\n");
		char n[64] = "";
		snprintf(n, sizeof n, "/proc/self/task/%d/children", getpid());
		FILE *c = fopen(n, "r");
		int pid;
		while (c && fscanf(c, "%d", &pid) == 1) kill(pid, SIGKILL);
		return 1;
	}
	return 0;
}
'''}),
dict(id="complete-before-disable", property="C22",
 edits=[("libseat/backend/logind.c", """		set_active(session, false);
		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
					 ret_error, NULL, "uu", major, minor);
""", """		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
					 ret_error, NULL, "uu", major, minor);
		set_active(session, false);
""")],
 needs="logind asking to pause a device while the session is active",
 breaks="logind is told that the device is no longer used before the application has been told to stop using it",
 sh=r'''#!/bin/bash
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 -DLIBSEAT=1 -DLOGIND_ENABLED=1 -DHAVE_LIBSYSTEMD=1 -I. -Iinclude \
  -o "$T/demo" "$H/demo.c" "$H/stubs.c" common/log.c common/drm.c || { echo "demo does not build"; exit 1; }
cd "$T" && timeout 60 ./demo
''', files={"demo.c": r'''
// The handler for PauseDevice against stand-ins for sd-bus.
#include "libseat/backend/logind.c"
extern char order[64];
static void en(struct libseat *s, void *d) { strcat(order, "enable "); }
static void dis(struct libseat *s, void *d) { strcat(order, "disable "); }
int main(void) {
	static const struct libseat_seat_listener l = {.enable_seat = en, .disable_seat = dis};
	struct backend_logind b = {.seat_listener = &l, .active = true};
	b.base.impl = &logind_impl;
	handle_pause_device((sd_bus_message *)&b, &b, NULL);
	if (strcmp(order, "disable complete ")) { printf("DEMO FAILED: %s\n", order); return 1; }
	return 0;
}
''', "stubs.c": r'''
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
char order[64];
int sd_bus_call_method(void *b, const char *d, const char *p, const char *i, const char *m, void *e, void **r, const char *t, ...) {
	if (!strcmp(m, "PauseDeviceComplete")) strcat(order, "complete ");
	return 1;
}
int sd_bus_message_read(void *m, const char *t, ...) {
	va_list a;
	va_start(a, t);
	if (!strcmp(t, "uus")) {
		*va_arg(a, uint32_t *) = 13;
		*va_arg(a, uint32_t *) = 64;
		*va_arg(a, const char **) = "pause";
	}
	va_end(a);
	return 1;
}
#define STUB(n) long n() { return 0; }
STUB(sd_bus_slot_unref) STUB(sd_bus_unref) STUB(sd_bus_message_is_method_error) STUB(sd_bus_message_get_error) STUB(sd_bus_call_method_async)
STUB(sd_bus_get_n_queued_read) STUB(sd_bus_get_n_queued_write) STUB(sd_bus_error_free) STUB(sd_bus_message_unref) STUB(sd_bus_get_fd)
STUB(sd_bus_process) STUB(sd_bus_get_property_trivial) STUB(sd_bus_message_read_basic) STUB(sd_bus_message_enter_container)
STUB(sd_bus_message_exit_container) STUB(sd_bus_message_skip) STUB(sd_bus_match_signal) STUB(sd_session_is_active) STUB(sd_pid_get_session)
STUB(sd_uid_get_display) STUB(sd_session_get_seat) STUB(sd_bus_default_system)
'''}),
dict(id="keyboard-failure-keeps-graphics", property="C10",
 edits=[("seatd/seat.c", """	terminal_set_keyboard(ttyfd, true);
	terminal_set_graphics(ttyfd, false);
	close(ttyfd);
	return 0;
""", """	if (terminal_set_keyboard(ttyfd, true) == -1) {
		close(ttyfd);
		return -1;
	}
	terminal_set_graphics(ttyfd, false);
	close(ttyfd);
	return 0;
""")],
 needs="the kernel refusing to change the keyboard mode of a VT while it is cleaned up",
 breaks="a VT whose session has ended stays in graphics mode",
 demo=r'''
int main(void) {
	dk_start("1");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	DK_CHECK(dk_kd[1] == KD_GRAPHICS, "not in graphics mode");
	dk_fail_kb = 1;
	close(a);
	dk_pump();
	DK_CHECK(dk_kd[1] == KD_TEXT, "VT 1 stays in graphics mode");
	return 0;
}
'''),
dict(id="flush-deferred", property="C06",
 edits=[("seatd/client.c", """	if (res != -1) {
		res = client_flush(client);
	}
	return res;
""", """	if (res != -1 && connection_pending(&client->connection) == 0) {
		// More requests are queued, so send all the replies at once
		res = client_flush(client);
	}
	return res;
""")],
 needs="a request followed by only a part of the next one",
 breaks="a well-formed request that has been read is not answered until its client sends something else",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	struct proto_header h = {.opcode = CLIENT_PING, .size = 0};
	char b[8];
	memcpy(b, &h, 4);
	memcpy(b + 4, &h, 4);
	dk_raw(a, b, 6);
	DK_EXPECT(a, "pong ");
	dk_raw(a, b + 6, 2);
	DK_EXPECT(a, "pong ");
	return 0;
}
'''),
dict(id="enable-without-ack", property="C01",
 edits=[("seatd/seat.c", """	vt_ack(seat, false);
	if (seat->active_client == NULL) {
		seat_activate(seat);
	}
	return 0;
""", """	vt_ack(seat, false);
	if (seat->active_client != NULL && seat->active_client->state == CLIENT_PENDING_DISABLE &&
	    seat->active_client->session == seat->cur_vt) {
		// Back already: there is no need to wait for the ack
		seat->active_client->state = CLIENT_DISABLED;
		seat->active_client = NULL;
	}
	if (seat->active_client == NULL) {
		seat_activate(seat);
	}
	return 0;
""")],
 needs="leaving a VT and coming back before its session has acknowledged the disable event",
 breaks="a session that was told to disable is enabled again without having acknowledged it; its late acknowledgement is refused",
 demo=r'''
int main(void) {
	dk_start("1");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	raise(SIGUSR1);
	DK_EXPECT(a, "disable ");
	dk_vt = 2;
	dk_vt = 1;
	raise(SIGUSR2);
	DK_EXPECT(a, "");
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(a, "enable disabled-ack ");
	return 0;
}
'''),
dict(id="evdev-directory", property="C03",
 edits=[("common/evdev.c", 'static const char prefix[] = "/dev/input/event";', 'static const char prefix[] = "/dev/input/";')],
 needs="a request for a node in /dev/input that is not an evdev node",
 breaks="the daemon opens devices it cannot revoke, such as legacy joystick and mouse nodes",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send_open(a, "/dev/input/mouse0");
	DK_EXPECT(a, "error(2) ");
	DK_CHECK(!dk_saw("open /dev/input/mouse0"), "opened");
	dk_send_open(a, "/dev/input/event0");
	DK_EXPECT(a, "device(1) ");
	return 0;
}
'''),
]
