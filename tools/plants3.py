import os
V = "/verif"
SERVER_LSTAT_SH = open(V + "/tools/dk/server_demo.sh").read().replace("--wrap=realpath", "--wrap=realpath,--wrap=lstat")
BUILTIN_SH = r'''#!/bin/bash
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 -DLIBSEAT=1 -DBUILTIN_ENABLED=1 '-DSEATD_DEFAULTPATH="/nonexistent/s"' -I. -Iinclude \
  -o "$T/demo" "$H/demo.c" common/*.c seatd/poller.c seatd/seat.c seatd/client.c seatd/server.c libseat/libseat.c libseat/backend/seatd.c libseat/backend/noop.c \
  || { echo "demo does not build"; exit 1; }
cd "$T" && SEATD_VTBOUND=0 timeout 60 ./demo
'''
LOGIND_SH = r'''#!/bin/bash
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 -DLIBSEAT=1 -DLOGIND_ENABLED=1 -DHAVE_LIBSYSTEMD=1 -I. -Iinclude \
  -o "$T/demo" "$H/demo.c" "$H/stubs.c" common/log.c common/drm.c || { echo "demo does not build"; exit 1; }
cd "$T" && timeout 60 ./demo
'''
PLANTS = [
dict(id="activate-before-revoke", property="C02",
 edits=[("seatd/seat.c", """	linked_list_remove(&client->link);
	linked_list_init(&client->link);

	while (!linked_list_empty(&client->devices)) {
		struct seat_device *device = (struct seat_device *)client->devices.next;
		if (seat_close_device(client, device) == -1) {
			log_errorf("Could not close %s: %s", device->path, strerror(errno));
		}
	}

	bool was_current = seat->active_client == client;
	if (was_current) {
		seat->active_client = NULL;
		seat_activate(seat);
	}
""", """	linked_list_remove(&client->link);
	linked_list_init(&client->link);

	bool was_current = seat->active_client == client;
	if (was_current) {
		seat->active_client = NULL;
		seat_activate(seat);
	}

	while (!linked_list_empty(&client->devices)) {
		struct seat_device *device = (struct seat_device *)client->devices.next;
		if (seat_close_device(client, device) == -1) {
			log_errorf("Could not close %s: %s", device->path, strerror(errno));
		}
	}
""")],
 needs="the session that holds the seat and devices leaves while another session waits",
 breaks="the next session is enabled (and its DRM master set) while the old one still has its devices",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect(), b = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened ");
	dk_send_open(a, "/dev/dri/card0");
	DK_EXPECT(a, "device(1) ");
	dk_send_int(a, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(a, "disable switched ");
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(a, "disabled-ack ");
	DK_EXPECT(b, "enable ");
	dk_send_open(b, "/dev/dri/card0");
	DK_EXPECT(b, "device(1) ");
	dk_clear();
	close(b);
	DK_EXPECT(a, "enable ");
	DK_CHECK(dk_before("drop-master", "set-master"), "the new holder became master before the old one was dropped");
	return 0;
}
'''),
dict(id="one-device-too-many", property="C04",
 edits=[("seatd/seat.c", "	if (device_count >= MAX_SEAT_DEVICES) {", "	if (device_count > MAX_SEAT_DEVICES) {")],
 needs="a client that opens as many devices as it may, and one more",
 breaks="the limit of devices of a client is exceeded by one",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	for (int i = 1; i <= MAX_SEAT_DEVICES + 1; i++) {
		char p[64], want[64];
		sprintf(p, "/dev/input/event%d", i);
		sprintf(want, i <= MAX_SEAT_DEVICES ? "device(%d) " : "error(%d) ", i <= MAX_SEAT_DEVICES ? i : EMFILE);
		dk_send_open(a, p);
		DK_EXPECT(a, want);
		close(dk_last_fd);
		dk_last_fd = -1;
	}
	return 0;
}
'''),
dict(id="no-successor-after-pending", property="C08",
 edits=[("seatd/seat.c", """	bool was_current = seat->active_client == client;
	if (was_current) {
		seat->active_client = NULL;
		seat_activate(seat);
	}
""", """	bool was_current = seat->active_client == client;
	if (was_current) {
		seat->active_client = NULL;
		if (client->state == CLIENT_ACTIVE || seat->next_client != NULL) {
			seat_activate(seat);
		}
	}
""")],
 needs="on a seat with VTs: the user goes to another session's VT and the session that is asked to stop leaves instead of acknowledging",
 breaks="the session on the foreground VT is never enabled, the seat stays idle",
 demo=r'''
int main(void) {
	dk_start("1");
	int a = dk_connect(), b = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	raise(SIGUSR1);
	DK_EXPECT(a, "disable ");
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	dk_vt = 2;
	raise(SIGUSR2);
	DK_EXPECT(a, "disabled-ack ");
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened enable ");
	// back to a, but b leaves without an acknowledgement
	raise(SIGUSR1);
	DK_EXPECT(b, "disable ");
	dk_vt = 1;
	raise(SIGUSR2);
	DK_EXPECT(a, "");
	close(b);
	DK_EXPECT(a, "enable ");
	return 0;
}
'''),
dict(id="drop-when-full", property="C12",
 edits=[("common/connection.c", """		if (connection_flush(connection) == -1) {
			return -1;
		}
	}

	if (connection_buffer_put(&connection->out, data, count) == -1) {
""", """		if (connection_flush(connection) == -1) {
			// A peer that does not keep up misses the message
			return errno == EAGAIN ? 0 : -1;
		}
	}

	if (connection_buffer_put(&connection->out, data, count) == -1) {
""")],
 needs="a client that does not read until the daemon's buffer for it is full",
 breaks="replies are dropped silently and the client waits for them for ever",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	static char r[1 << 20];
	int sent = 0;
	// until the daemon neither answers nor reads any more
	for (int i = 0; i < 3000; i++) {
		struct proto_header h[100];
		for (int k = 0; k < 100; k++) h[k] = (struct proto_header){.opcode = CLIENT_PING};
		if (send(a, h, sizeof h, MSG_NOSIGNAL) != sizeof h) break;
		sent += 100;
		dk_pump();
	}
	int got = 0, eof = 0;
	for (int i = 0; i < 20000 && !eof; i++) {
		char b[4096];
		dk_pump();
		ssize_t n = recv(a, b, sizeof b, 0);
		if (n == 0) eof = 1;
		else if (n < 0) { if (errno == ECONNRESET) eof = 1; else break; }
		else got += (int)n;
	}
	(void)r;
	DK_CHECK(eof || got == sent * 4, "%d pings, %d bytes of answers, still connected", sent, got);
	return 0;
}
'''),
dict(id="noop-reentrant", property="C20",
 edits=[("libseat/backend/noop.c", """		backend->initial_setup = false;
		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
		timeout = 0;
""", """		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
		backend->initial_setup = false;
		timeout = 0;
""")],
 needs="an application that dispatches from within its enable callback",
 breaks="the seat is enabled again and again",
 sh=BUILTIN_SH, files={"demo.c": r'''
#include <stdio.h>
#include <stdlib.h>
#include "libseat.h"
static int n;
static void en(struct libseat *s, void *d) { if (++n < 50) libseat_dispatch(s, 0); }
static void dis(struct libseat *s, void *d) {}
static const struct libseat_seat_listener l = {.enable_seat = en, .disable_seat = dis};
int main(void) {
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&l, NULL);
	if (!s) return 9;
	for (int i = 0; i < 3; i++) libseat_dispatch(s, 0);
	if (n != 1) { printf("DEMO FAILED: enabled %d times\n", n); return 1; }
	return libseat_close_seat(s);
}
'''}),
dict(id="builtin-lingers", property="C21",
 edits=[("seatd/client.c", """	client->server->running = false;
""", """	if (client->seat != NULL) {
		client->server->running = false;
	}
""")],
 needs="an application that closes its seat in order",
 breaks="the embedded server stays around after the seat has been closed",
 sh=BUILTIN_SH, files={"demo.c": r'''
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libseat.h"
static void ev(struct libseat *s, void *d) { (void)s; (void)d; }
static const struct libseat_seat_listener l = {.enable_seat = ev, .disable_seat = ev};
int main(void) {
	int p[2];
	setenv("LIBSEAT_BACKEND", "builtin", 1);
	if (pipe(p)) return 9;
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	pid_t app = fork();
	if (app == 0) {
		close(p[0]); // p[1] stays open in the application and its server
		struct libseat *s = libseat_open_seat(&l, NULL);
		if (!s) _exit(3);
		for (int i = 0; i < 3; i++) libseat_dispatch(s, 100);
		_exit(libseat_close_seat(s) == 0 ? 0 : 4);
	}
	close(p[1]);
	int st;
	waitpid(app, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("DEMO FAILED: application ended with %x\n", st); return 1; }
	struct pollfd f = {.fd = p[0], .events = POLLIN};
	if (poll(&f, 1, 5000) != 1) {
		printf("DEMO FAILED: the server outlives its application\n");
		char n[64] = "";
		snprintf(n, sizeof n, "/proc/self/task/%d/children", getpid());
		FILE *c = fopen(n, "r");
		int pid;
		while (c && fscanf(c, "%d", &pid) == 1) kill(pid, SIGKILL);
		return 1;
	}
	return 0;
}
'''}),
dict(id="force-pause-disables", property="C22",
 edits=[("libseat/backend/logind.c", """	if (pause) {
		// We need""", """	if (strcmp(type, "force") == 0) {
		set_active(session, false);
	}

	if (pause) {
		// We need""")],
 needs="logind revoking a single device (PauseDevice with force) while the session stays active",
 breaks="the application is told that the seat is disabled although its session is active, and never enabled again",
 sh=LOGIND_SH, files={"demo.c": r'''
#include "libseat/backend/logind.c"
extern char order[64];
static void en(struct libseat *s, void *d) { strcat(order, "enable "); }
static void dis(struct libseat *s, void *d) { strcat(order, "disable "); }
int main(void) {
	static const struct libseat_seat_listener l = {.enable_seat = en, .disable_seat = dis};
	struct backend_logind b = {.seat_listener = &l, .active = true};
	b.base.impl = &logind_impl;
	handle_pause_device((sd_bus_message *)&b, &b, NULL);
	if (strcmp(order, "")) { printf("DEMO FAILED: %s\n", order); return 1; }
	return 0;
}
''', "stubs.c": r'''
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
char order[64];
int sd_bus_call_method(void *b, const char *d, const char *p, const char *i, const char *m, void *e, void **r, const char *t, ...) {
	if (!strcmp(m, "PauseDeviceComplete")) strcat(order, "complete ");
	return 1;
}
int sd_bus_message_read(void *m, const char *t, ...) {
	va_list a;
	va_start(a, t);
	if (!strcmp(t, "uus")) {
		*va_arg(a, uint32_t *) = 13;
		*va_arg(a, uint32_t *) = 64;
		*va_arg(a, const char **) = "force";
	}
	va_end(a);
	return 1;
}
#define STUB(n) long n() { return 0; }
STUB(sd_bus_slot_unref) STUB(sd_bus_unref) STUB(sd_bus_message_is_method_error) STUB(sd_bus_message_get_error) STUB(sd_bus_call_method_async)
STUB(sd_bus_get_n_queued_read) STUB(sd_bus_get_n_queued_write) STUB(sd_bus_error_free) STUB(sd_bus_message_unref) STUB(sd_bus_get_fd)
STUB(sd_bus_process) STUB(sd_bus_get_property_trivial) STUB(sd_bus_message_read_basic) STUB(sd_bus_message_enter_container)
STUB(sd_bus_message_exit_container) STUB(sd_bus_message_skip) STUB(sd_bus_match_signal) STUB(sd_session_is_active) STUB(sd_pid_get_session)
STUB(sd_uid_get_display) STUB(sd_session_get_seat) STUB(sd_bus_default_system)
'''}),
dict(id="longest-path", property="C23",
 edits=[("seatd/client.c", "		if (msg.path_len > MAX_PATH_LEN) {", "		if (msg.path_len >= MAX_PATH_LEN) {")],
 needs="an application that asks for a device by the longest path libseat passes on",
 breaks="the daemon ends the connection instead of answering, and the application loses its session",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	char p[MAX_PATH_LEN] = "/dev/input/event";
	for (size_t i = strlen(p); i < sizeof p - 1; i++) p[i] = '1';
	p[sizeof p - 1] = 0;
	dk_send_open(a, p);
	DK_EXPECT(a, "device(1) ");
	return 0;
}
'''),
dict(id="no-ping-after-ack", property="C18", kit="lib",
 edits=[("libseat/backend/seatd.c", """	if (read_header(backend, SERVER_SEAT_DISABLED, 0, false) == SIZE_MAX) {
		res = -1;
	}

	check_pending_events(backend);
	return res;
""", """	if (read_header(backend, SERVER_SEAT_DISABLED, 0, false) == SIZE_MAX) {
		res = -1;
	}
	return res;
""")],
 needs="the enable event arriving with the answer to the acknowledgement",
 breaks="the event is queued inside libseat and nothing wakes the application up for it",
 demo=r'''
static void script(int fd) {
	char b[64];
	lk_request(fd, NULL, NULL);
	size_t n = lk_opened_msg(b);
	lk_write(fd, b, n);
	for (;;) {
		int op = lk_request(fd, NULL, NULL);
		if (op == CLIENT_DISABLE_SEAT) {
			n = lk_msg(b, SERVER_ENABLE_SEAT, NULL, 0);
			n += lk_msg(b + n, SERVER_SEAT_DISABLED, NULL, 0);
			lk_write(fd, b, n);
		} else if (op == CLIENT_PING) lk_reply(fd, SERVER_PONG);
		else if (op == CLIENT_CLOSE_SEAT) lk_reply(fd, SERVER_SEAT_CLOSED);
		else return;
	}
}
int main(void) {
	lk_serve(script);
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	LK_CHECK(s, "open_seat");
	LK_CHECK(libseat_disable_seat(s) == 0, "disable_seat");
	LK_CHECK(lk_readable(s, 3000), "nothing to read");
	libseat_dispatch(s, 0);
	LK_CHECK(strstr(lk_log, "enable"), "no event");
	libseat_close_seat(s);
	lk_cleanup();
	return 0;
}
'''),
dict(id="events-reversed", property="C17", kit="lib",
 edits=[("libseat/backend/seatd.c", "	linked_list_insert(backend->pending_events.prev, &ev->link);", "	linked_list_insert(&backend->pending_events, &ev->link);")],
 needs="two events arriving before the application dispatches",
 breaks="the application sees them in the wrong order and believes its seat is disabled",
 demo=r'''
static void script(int fd) {
	char b[64];
	lk_request(fd, NULL, NULL);
	size_t n = lk_opened_msg(b);
	lk_write(fd, b, n);
	for (;;) {
		int op = lk_request(fd, NULL, NULL);
		if (op == CLIENT_SWITCH_SESSION) {
			n = lk_msg(b, SERVER_DISABLE_SEAT, NULL, 0);
			n += lk_msg(b + n, SERVER_ENABLE_SEAT, NULL, 0);
			n += lk_msg(b + n, SERVER_SESSION_SWITCHED, NULL, 0);
			lk_write(fd, b, n);
		} else if (op == CLIENT_PING) lk_reply(fd, SERVER_PONG);
		else if (op == CLIENT_CLOSE_SEAT) lk_reply(fd, SERVER_SEAT_CLOSED);
		else return;
	}
}
int main(void) {
	lk_serve(script);
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	LK_CHECK(s, "open_seat");
	LK_CHECK(libseat_switch_session(s, 2) == 0, "switch_session");
	for (int i = 0; i < 5; i++) libseat_dispatch(s, 100);
	LK_CHECK(!strcmp(lk_log, "disable enable "), "wrong order");
	libseat_close_seat(s);
	lk_cleanup();
	return 0;
}
'''),
dict(id="seat-name-overflow", property="C19", kit="lib",
 edits=[("libseat/backend/seatd.c", "	    (rmsg.seat_name_len < MAX_SEAT_LEN && backend->seat_name[rmsg.seat_name_len - 1] != 0)) {",
         "	    (rmsg.seat_name_len <= MAX_SEAT_LEN && backend->seat_name[rmsg.seat_name_len - 1] != 0)) {")],
 needs="a server that sends the longest seat name there is, without its terminator",
 breaks="one byte is written past the seat's name",
 demo=r'''
static void script(int fd) {
	char b[512], m[2 + MAX_SEAT_LEN];
	lk_request(fd, NULL, NULL);
	uint16_t l = MAX_SEAT_LEN;
	memset(m, 'x', sizeof m);
	memcpy(m, &l, 2);
	size_t n = lk_msg(b, SERVER_SEAT_OPENED, m, sizeof m);
	lk_write(fd, b, n);
	lk_request(fd, NULL, NULL);
}
int main(void) {
	lk_serve(script);
	struct libseat *s = libseat_open_seat(&lk_listener, NULL);
	LK_CHECK(!s, "a seat without a name was opened");
	lk_cleanup();
	return 0;
}
'''),
dict(id="resolve-links-only", property="C03",
 edits=[("seatd/seat.c", """	if (realpath(path, sanitized_path) == NULL) {
		log_errorf("Could not canonicalize path %s: %s", path, strerror(errno));
		return NULL;
	}
""", """	struct stat path_st;
	if (lstat(path, &path_st) == 0 && !S_ISLNK(path_st.st_mode)) {
		// Nothing to resolve
		strcpy(sanitized_path, path);
	} else if (realpath(path, sanitized_path) == NULL) {
		log_errorf("Could not canonicalize path %s: %s", path, strerror(errno));
		return NULL;
	}
""")],
 needs="a path that passes through a device directory and out of it again",
 breaks="any device can be opened through the daemon",
 sh=SERVER_LSTAT_SH, files={"dk.h": open(V + "/tools/dk/dk.h").read(), "demo.c": r'''
#include "dk.h"
int __real_lstat(const char *p, struct stat *s);
int __wrap_lstat(const char *p, struct stat *s) {
	if (strncmp(p, "/dev/", 5)) return __real_lstat(p, s);
	memset(s, 0, sizeof *s);
	s->st_mode = S_IFCHR | 0600;
	return 0;
}
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send_open(a, "/dev/dri/../mem");
	dk_ask(a);
	DK_CHECK(!dk_saw("open "), "a device outside of the seat was opened");
	return 0;
}
'''}),
dict(id="acquire-only-if-moved", property="C09",
 edits=[("seatd/seat.c", """	seat_update_vt(seat);
	log_debug("Activating VT");
""", """	int old_vt = seat->cur_vt;
	seat_update_vt(seat);
	if (old_vt == seat->cur_vt) {
		log_debug("VT did not change, ignoring");
		return 0;
	}
	log_debug("Activating VT");
""")],
 needs="the session acknowledging (or leaving) after the kernel has switched the VT, but before the daemon got the acquire signal",
 breaks="the acquire signal is never acknowledged",
 demo=r'''
int main(void) {
	dk_start("1");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	raise(SIGUSR1);
	DK_EXPECT(a, "disable ");
	dk_vt = 2;
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(a, "disabled-ack ");
	dk_clear();
	raise(SIGUSR2);
	dk_pump();
	DK_CHECK(dk_saw("vt-reldisp 2"), "the acquire was not acknowledged");
	return 0;
}
'''),
]
