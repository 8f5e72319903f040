From 5f13dd2a1e5ae9bf8f76f5ddd73ef3bca525a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 01/24] fix: return the existing device when a client re-opens
 it

---
 seatd/seat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..d81f839 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -360,7 +360,7 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 
 		if (strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From 62556927189231fc31387a96c4ba3bc194a14f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 02/24] fix: clean up the removed client's own VT

---
 seatd/seat.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index d81f839..1c8a452 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -270,18 +270,12 @@ void seat_remove_client(struct client *client) {
 		seat_activate(seat);
 	}
 
-	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+	if (seat->vt_bound && client->state != CLIENT_CLOSED &&
+	    (seat->active_client == NULL || seat->active_client->session != client->session)) {
+		// The client may have been running on its VT, and no other
+		// client is using that VT now, so clean it up.
+		log_debugf("Closing VT %d", client->session);
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From 2f0e85d6acb687926a723d4aa4c20e84e86b98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 03/24] fix: report end of file with a partial message buffered

---
 common/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..a27ca17 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,10 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		// End of file, regardless of what remains in the buffer
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From cede866da3936ace8c9b595264b860022a4e5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 04/24] fix: do not lose signals raised while their handler
 runs

---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..a414eb4 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,8 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From d21557798dd379935cb43ec8e16570d4724d3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 05/24] fix: follow VT switches for clients waiting for a
 pending disable

---
 seatd/seat.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 1c8a452..186e4ad 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -232,6 +232,16 @@ int seat_add_client(struct seat *seat, struct client *client) {
 		client->session = seat->session_cnt++;
 	}
 
+	if (seat->vt_bound && seat->active_client != NULL) {
+		// The client has to wait for the active client to be disabled,
+		// so make sure that we notice if its VT is left and re-entered.
+		int ttyfd = terminal_open(client->session);
+		if (ttyfd != -1) {
+			terminal_set_process_switching(ttyfd, true);
+			close(ttyfd);
+		}
+	}
+
 	client->seat = seat;
 	linked_list_remove(&client->link);
 	linked_list_insert(&seat->clients, &client->link);
-- 
2.43.0


From 1f0dc5ad8e5eeed1e3cb941f19ee57e0243f47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 06/24] fix: handle a VT release before a VT acquire

---
 seatd/server.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seatd/server.c b/seatd/server.c
index 47d6e91..08f048b 100644
--- a/seatd/server.c
+++ b/seatd/server.c
@@ -31,8 +31,10 @@ int server_init(struct server *server) {
 	linked_list_init(&server->seats);
 	linked_list_init(&server->idle_clients);
 
-	if (poller_add_signal(&server->poller, SIGUSR1, server_handle_vt_rel, server) == NULL ||
-	    poller_add_signal(&server->poller, SIGUSR2, server_handle_vt_acq, server) == NULL ||
+	// The signal added last is handled first. A VT release has to be handled
+	// before an acquire, as acking the acquire would also ack the release.
+	if (poller_add_signal(&server->poller, SIGUSR2, server_handle_vt_acq, server) == NULL ||
+	    poller_add_signal(&server->poller, SIGUSR1, server_handle_vt_rel, server) == NULL ||
 	    poller_add_signal(&server->poller, SIGINT, server_handle_kill, server) == NULL ||
 	    poller_add_signal(&server->poller, SIGTERM, server_handle_kill, server) == NULL) {
 		server_finish(server);
-- 
2.43.0


From 9d13279eeda0d28fc69c90637fce36fc9ebd9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 07/24] fix: fail to open an unknown VT instead of aborting

---
 common/terminal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/terminal.c b/common/terminal.c
index 570cd7f..bb6c079 100644
--- a/common/terminal.c
+++ b/common/terminal.c
@@ -152,6 +152,10 @@ static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
 #endif
 
 int terminal_open(int vt) {
+	if (vt < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 	char path[TTYPATHLEN];
 	if (get_tty_path(vt, path) == -1) {
 		log_errorf("Could not generate tty path: %s", strerror(errno));
-- 
2.43.0


From 3419a422b85400d2820bafd3ce8de1a8777988a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 08/24] fix: do not lose seat events for clients that are slow
 to read

---
 seatd/client.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..391f3a8 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -464,8 +464,10 @@ int client_send_disable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		// The client missed the event and cannot be served any longer
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
@@ -477,8 +479,10 @@ int client_send_enable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		// The client missed the event and cannot be served any longer
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
-- 
2.43.0


From 7925aae631e1d15b037431a9e9878b7b1f0d53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 09/24] fix: look up the current VT before choosing the next
 client

---
 seatd/seat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 186e4ad..7d68a96 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -149,6 +149,11 @@ static int seat_activate(struct seat *seat) {
 		return 0;
 	}
 
+	if (seat->vt_bound) {
+		// A VT switch may not have happened after all
+		seat_update_vt(seat);
+	}
+
 	struct client *next_client = NULL;
 	if (seat->next_client != NULL) {
 		log_debugf("Activating next queued client on %s", seat->seat_name);
-- 
2.43.0


From b58ea9d0992368f2b8dd096bbb6fdefa0d99bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 10/24] fix: do not close the connection twice when opening a
 seat fails

destroy() already closes the socket.
---
 libseat/backend/seatd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..c813305 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -424,6 +424,8 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 
 backend_error:
 	destroy(backend);
+	return NULL;
+
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From 2b0a7031c73353e6f28aa9b73be6a33570ee578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 11/24] fix: keep the errno of failed requests

Looking for pending events after a request overwrote errno, so callers saw
EAGAIN instead of the error returned by the server.
---
 libseat/backend/seatd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index c813305..81db9df 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -483,14 +483,16 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	// Preserve the errno set by the preceding request, if any
+	int saved_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto done;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto done;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto done;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -499,9 +501,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto done;
 	}
 	backend->awaiting_pong = true;
+
+done:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From 06d88f5c4a0661fa838dbc14d0065e11275aaf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 12/24] fix: deliver queued events in the order they were sent

New events were put at the front of the list, so that an enable and a disable
queued together were delivered in reverse.
---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 81db9df..0d60b0e 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From 124ebbad462bc5b2ca6de08b3b5edcc9b6c955ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 13/24] fix: reject paths that do not fit in a message

A path of 250 to 255 bytes made for a message larger than the connection
buffer, which the server can only answer by dropping the client.
---
 include/protocol.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protocol.h b/include/protocol.h
index c247149..216df36 100644
--- a/include/protocol.h
+++ b/include/protocol.h
@@ -1,7 +1,8 @@
 #ifndef _SEATD_CONSTANTS_H
 #define _SEATD_CONSTANTS_H
 
-#define MAX_PATH_LEN     256
+// Messages, including their headers, must fit in the connection buffer
+#define MAX_PATH_LEN     250
 #define MAX_SEAT_LEN     64
 #define MAX_SEAT_DEVICES 128
 #define MAX_SESSION_LEN  64
-- 
2.43.0


From 5d6ef533e88c9fc9df741f8a75591c7d78db7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 14/24] fix: wake up the user for events received while opening
 a seat

Events read together with the reply stayed in the buffer with nothing left to
read on the socket, so a user waiting for the fd never noticed them.
---
 libseat/backend/seatd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 0d60b0e..0ad88d5 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -364,6 +364,8 @@ error:
 	return -1;
 }
 
+static void check_pending_events(struct backend_seatd *backend);
+
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
@@ -420,6 +422,9 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+
+	// The enable event may have arrived together with the reply
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
-- 
2.43.0


From 0cceb0095546438c429502d632eeb97c7f36efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 15/24] fix: notice a closed connection when dispatching
 without a timeout

An end of file was taken for nothing to read, so users dispatching with a zero
timeout were never told and kept being woken up.
---
 libseat/backend/seatd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 0ad88d5..2d36ac8 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -340,6 +340,11 @@ static int dispatch(struct libseat *base, int timeout) {
 	int read = 0;
 	if (predispatch > 0 || timeout == 0) {
 		read = connection_read(&backend->connection);
+		if (read == 0) {
+			set_error(backend);
+			errno = EIO;
+			read = -1;
+		}
 	} else {
 		read = poll_connection(backend, timeout);
 	}
-- 
2.43.0


From 5905e2a726dd5c17b0b11b83fcb2ce71e0f1bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 16/24] fix: do not signal a seatd that is already gone

---
 seatd-launch/seatd-launch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..cd0d441 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -77,7 +77,7 @@ int main(int argc, char *argv[]) {
 		pid_t p = waitpid(seatd_child, NULL, WNOHANG);
 		if (p == seatd_child) {
 			fprintf(stderr, "seatd exited prematurely\n");
-			goto error_seatd;
+			goto error;
 		} else if (p == -1 && (errno != EINTR && errno != ECHILD)) {
 			perror("Could not wait for seatd process");
 			goto error_seatd;
-- 
2.43.0


From b1dbb784341b211181d087f0ba9629cb495f5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 17/24] fix: read D-Bus booleans from logind into an int

sd-bus writes an int for the type 'b'; the bool targets were overrun.
---
 libseat/backend/logind.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..6b273ee 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -279,12 +279,16 @@ static const char *seat_name(struct libseat *base) {
 }
 
 static int session_get_active(struct backend_logind *session, bool *active) {
+	// sd-bus stores D-Bus booleans as int
+	int value = 0;
 	sd_bus_error error = SD_BUS_ERROR_NULL;
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +438,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value; // sd-bus stores D-Bus booleans as int
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +483,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value; // sd-bus stores D-Bus booleans as int
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From ab88a5d2d75d081985a045e59a362e22fc7ab94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 18/24] fix: do not leak the reply to PauseDeviceComplete

The reply was stored over the signal being handled and never released. It
also holds a reference on the bus, which kept the connection open after the
seat was closed.
---
 libseat/backend/logind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 6b273ee..65c2cae 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -392,7 +392,7 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		set_active(session, false);
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 ret_error, NULL, "uu", major, minor);
 		if (ret < 0) {
 			log_errorf("Could not send PauseDeviceComplete signal: %s",
 				   ret_error->message);
-- 
2.43.0


From 5fbe9d2b438f9b3f5b352f1e2866407da02eeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 19/24] fix: set errno when a logind request fails

libseat.h promises it for open_device, close_device and switch_session.
---
 libseat/backend/logind.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 65c2cae..3a62dcc 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -138,6 +138,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	// so we just clone it.
 	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);
 	if (tmpfd < 0) {
+		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
 		tmpfd = -1;
 		goto out;
@@ -149,6 +150,9 @@ out:
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
+	if (tmpfd < 0) {
+		errno = -ret;
+	}
 	return tmpfd;
 }
 
@@ -179,7 +183,11 @@ static int close_device(struct libseat *base, int device_id) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int switch_session(struct libseat *base, int s) {
@@ -202,7 +210,11 @@ static int switch_session(struct libseat *base, int s) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int disable_seat(struct libseat *base) {
-- 
2.43.0


From 692dc8f22fac22d630790bc8575460b85c9cc1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 20/24] fix: report a lost bus connection from logind's
 dispatch

Errors from sd_bus_process were dropped, so that dispatch kept returning 0,
or waited forever, once the connection was gone.
---
 libseat/backend/logind.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 3a62dcc..94e5aa4 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -272,7 +272,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-	if (total_dispatched == 0 && timeout != 0) {
+	if (dispatched == 0 && total_dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
 			return -1;
@@ -281,6 +281,11 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			total_dispatched += dispatched;
 		}
 	}
+	if (dispatched < 0) {
+		log_errorf("Could not process D-Bus messages: %s", strerror(-dispatched));
+		errno = -dispatched;
+		return -1;
+	}
 	check_pending_events(backend);
 	return total_dispatched;
 }
-- 
2.43.0


From fd5a26538084874b4c7df6273836504e39b072be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 21/24] fix: stop handling logind signals when the seat is
 closed

The bus is the default bus of the thread, which the application may keep
using; the signal handlers then ran with the freed backend.
---
 libseat/backend/logind.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 94e5aa4..194c5d2 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -34,6 +34,8 @@ struct backend_logind {
 	void *seat_listener_data;
 
 	sd_bus *bus;
+	sd_bus_slot *pause_device_slot;
+	sd_bus_slot *properties_changed_slot;
 	char *id;
 	char *seat;
 	char *path;
@@ -52,6 +54,9 @@ static struct backend_logind *backend_logind_from_libseat_backend(struct libseat
 
 static void destroy(struct backend_logind *backend) {
 	assert(backend);
+	// The application may hold its own reference to the default bus
+	sd_bus_slot_unref(backend->pause_device_slot);
+	sd_bus_slot_unref(backend->properties_changed_slot);
 	if (backend->bus != NULL) {
 		sd_bus_unref(backend->bus);
 	}
@@ -537,15 +542,16 @@ static int add_signal_matches(struct backend_logind *backend) {
 	static const char *property_interface = "org.freedesktop.DBus.Properties";
 	int ret;
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, session_interface,
-				  "PauseDevice", handle_pause_device, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->pause_device_slot, logind, backend->path,
+				  session_interface, "PauseDevice", handle_pause_device, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
 	}
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, property_interface,
-				  "PropertiesChanged", handle_properties_changed, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->properties_changed_slot, logind,
+				  backend->path, property_interface, "PropertiesChanged",
+				  handle_properties_changed, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
-- 
2.43.0


From abb6e23c868e018e709a866aca9adbcc034f5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 22/24] fix: free the error of a failed property request

---
 libseat/backend/logind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 194c5d2..8209154 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -511,6 +511,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 							  &value);
 			if (ret < 0) {
 				log_errorf("Could not get '%s' property: %s", field, error.message);
+				sd_bus_error_free(&error);
 				continue;
 			}
 
-- 
2.43.0


From c4cbfca923afecb8aba4e6ded17eb83476a08269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 23/24] fix: return from the dispatch that reports the initial
 state

With a timeout of -1 it went on to wait for data that may never come, so
that waiting for the seat to be enabled did not return (as in simpletest with
the noop backend).
---
 libseat/backend/logind.c | 1 +
 libseat/backend/noop.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 8209154..e2e6d30 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -270,6 +270,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			backend->seat_listener->disable_seat(&backend->base,
 							     backend->seat_listener_data);
 		}
+		timeout = 0;
 	}
 
 	int total_dispatched = 0;
diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..706af6a 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -86,6 +86,7 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		timeout = 0;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From 5ced9f464101467c07f96b86b47db3ff7640f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 24/24] fix: noop: set errno when refusing to switch session

---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 706af6a..bc1ade6 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -72,6 +72,7 @@ static int switch_session(struct libseat *base, int s) {
 	(void)base;
 	(void)s;
 	log_errorf("No-op backend cannot switch to session %d", s);
+	errno = ENOSYS;
 	return -1;
 }
 
-- 
2.43.0

