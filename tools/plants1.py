PLANTS = [
dict(id="excl-no-devices", property="C01",
 edits=[("seatd/seat.c", """	seat->next_client = target;
	seat_disable_client(seat->active_client);
	return 0;
""", """	seat->next_client = target;
	seat_disable_client(seat->active_client);
	if (linked_list_empty(&client->devices)) {
		// There is nothing the client would have to give up first
		seat->active_client = NULL;
		seat_activate(seat);
	}
	return 0;
""")],
 needs="a session switch on a non-VT seat requested by a session that has no device open",
 breaks="the next session is enabled before the previous one acknowledged its disable event",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect(), b = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened ");
	dk_send_int(a, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(a, "disable switched ");
	DK_EXPECT(b, "");
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(a, "disabled-ack ");
	DK_EXPECT(b, "enable ");
	return 0;
}
'''),
dict(id="revoke-stops-early", property="C02",
 edits=[("seatd/seat.c", """			log_errorf("Could not deactivate %s: %s", device->path, strerror(errno));
		}
""", """			log_errorf("Could not deactivate %s: %s", device->path, strerror(errno));
			break;
		}
""")],
 needs="revoking one of several devices fails (unplugged) while the session is being disabled",
 breaks="the remaining devices of the disabled session are not revoked",
 demo=r'''
int __real_ioctl(int, unsigned long, ...);
int main(void) {
	dk_start("0");
	int a = dk_connect(), b = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened ");
	dk_send_open(a, "/dev/input/event0");
	DK_EXPECT(a, "device(1) ");
	dk_send_open(a, "/dev/input/event1");
	DK_EXPECT(a, "device(2) ");
	dk_send_open(a, "/dev/input/event2");
	DK_EXPECT(a, "device(3) ");
	dk_fail_revoke = "/dev/input/event1";
	dk_send_int(a, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(a, "disable switched ");
	DK_CHECK(dk_saw("revoke /dev/input/event0") && dk_saw("revoke /dev/input/event2"), "devices not revoked");
	return 0;
}
'''),
dict(id="reopen-fast-path", property="C03",
 edits=[("seatd/seat.c", """	if (client->state != CLIENT_ACTIVE) {
		log_error("Could open device: client is not active");
""", """	// Re-opening does not need another look at the path
	for (struct linked_list *elem = client->devices.next; elem != &client->devices;
	     elem = elem->next) {
		struct seat_device *open_device = (struct seat_device *)elem;
		if (strcmp(open_device->path, path) == 0) {
			open_device->ref_cnt++;
			return open_device;
		}
	}

	if (client->state != CLIENT_ACTIVE) {
		log_error("Could open device: client is not active");
""")],
 needs="a session that has been disabled asks for a device it still has open",
 breaks="a session that does not hold the seat is given a device descriptor",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect(), b = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened ");
	dk_send_open(a, "/dev/dri/card0");
	DK_EXPECT(a, "device(1) ");
	dk_send_int(a, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(a, "disable switched ");
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(a, "disabled-ack ");
	dk_send_open(a, "/dev/dri/card0");
	DK_EXPECT(a, "error(1) ");
	return 0;
}
'''),
dict(id="device-id-reuse", property="C04",
 edits=[("seatd/seat.c", """		if (old_device->device_id >= device_id) {
			device_id = old_device->device_id + 1;
		}
		device_count++;
""", """		device_count++;
		device_id = (int)device_count + 1;
""")],
 needs="closing a device that is not the newest and opening another one",
 breaks="two devices open in a session have the same id, so closing one closes the other",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	int id[3];
	const char *n[] = {"/dev/input/event0", "/dev/input/event1", "/dev/input/event2"};
	for (int i = 0; i < 2; i++) { dk_send_open(a, n[i]); dk_ask(a); id[i] = dk_last_id; }
	dk_send_int(a, CLIENT_CLOSE_DEVICE, id[0]);
	DK_EXPECT(a, "device-closed ");
	dk_send_open(a, n[2]);
	dk_ask(a);
	DK_CHECK(dk_last_id > 0 && dk_last_id != id[1], "id %d given twice", dk_last_id);
	return 0;
}
'''),
dict(id="unsent-fd-leak", property="C05",
 edits=[("common/connection.c", """void connection_close_fds(struct connection *connection) {
	connection_buffer_close_fds(&connection->fds_in);
	connection_buffer_close_fds(&connection->fds_out);
}""", """void connection_close_fds(struct connection *connection) {
	connection_buffer_close_fds(&connection->fds_in);
	if (connection->want_flush) {
		connection_buffer_close_fds(&connection->fds_out);
	}
}"""), ("common/connection.c", """	uint32_t tail = connection->out.tail;
	while (""", """	uint32_t tail = connection->out.tail;
	connection->want_flush = 0;
	while (""")],
 needs="a client that stops reading opens a device and then disconnects, so that the descriptor is still queued",
 breaks="the queued copy of the device descriptor stays open in the daemon for ever",
 demo=r'''
static int count(void) { int n = 0; for (int i = 0; i < 1000; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
int main(void) {
	dk_start("0");
	int z = dk_connect();
	dk_pump();
	int before = count();
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	int full = 0;
	for (int i = 0; i < 20000 && !full; i++) {
		struct proto_header h = {.opcode = CLIENT_PING, .size = 0};
		if (send(a, &h, sizeof h, MSG_NOSIGNAL | MSG_DONTWAIT) != 4) break;
		dk_pump();
		// stop once the daemon cannot send any more
		struct client *c = NULL;
		for (struct linked_list *l = dk_server.seats.next; l != &dk_server.seats; l = l->next) {
			struct seat *s = (struct seat *)l;
			if (!linked_list_empty(&s->clients)) c = (struct client *)s->clients.next;
		}
		full = c && c->connection.out.head != c->connection.out.tail;
	}
	DK_CHECK(full, "could not fill the socket");
	dk_send_open(a, "/dev/input/event0");
	dk_pump();
	DK_CHECK(dk_saw("open /dev/input/event0"), "device not opened");
	close(a);
	dk_pump();
	DK_CHECK(count() == before, "%d descriptors instead of %d are open", count(), before);
	(void)z;
	return 0;
}
'''),
dict(id="message-budget", property="C06",
 edits=[("seatd/client.c", """		struct proto_header header;
		while (connection_get(&client->connection, &header, sizeof header) != -1) {
""", """		struct proto_header header;
		// Do not let one client keep the daemon busy
		int budget = 32;
		while (budget-- > 0 &&
		       connection_get(&client->connection, &header, sizeof header) != -1) {
""")],
 needs="a client that pipelines more than 32 small requests in one write and then waits",
 breaks="the remaining requests are never answered",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect();
	char b[4 * 60];
	for (int i = 0; i < 60; i++) { struct proto_header h = {.opcode = CLIENT_PING, .size = 0}; memcpy(b + 4 * i, &h, 4); }
	dk_raw(a, b, sizeof b);
	const char *r = dk_ask(a);
	int n = 0;
	for (const char *p = r; (p = strstr(p, "pong")); p++) n++;
	DK_CHECK(n == 60, "%d of 60 pings answered", n);
	return 0;
}
'''),
dict(id="stale-next-client", property="C08",
 edits=[("seatd/seat.c", """	if (seat->next_client == client) {
		seat->next_client = NULL;
	}

	linked_list_remove(&client->link);
""", """	if (seat->next_client == client && client->state == CLIENT_NEW) {
		seat->next_client = NULL;
	}

	linked_list_remove(&client->link);
""")],
 needs="a session that has been enabled before is the target of a pending switch and disconnects before the acknowledgement",
 breaks="the daemon activates a session that is gone (use after free)",
 demo=r'''
int main(void) {
	dk_start("0");
	int a = dk_connect(), b = dk_connect(), c = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_send(b, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(b, "opened ");
	dk_send(c, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(c, "opened ");
	dk_send_int(a, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(a, "disable switched ");
	dk_send(a, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(a, "disabled-ack ");
	DK_EXPECT(b, "enable ");
	dk_send_int(b, CLIENT_SWITCH_SESSION, 2);
	DK_EXPECT(b, "disable switched ");
	dk_send(b, CLIENT_DISABLE_SEAT, 0, 0);
	DK_EXPECT(b, "disabled-ack ");
	DK_EXPECT(c, "enable ");
	// c asks for b, which goes away before c acknowledges
	dk_send_int(c, CLIENT_SWITCH_SESSION, 1);
	DK_EXPECT(c, "disable switched ");
	close(b);
	dk_pump();
	dk_send(c, CLIENT_DISABLE_SEAT, 0, 0);
	char rc[200], ra[200];
	dk_pump();
	dk_recv(c, rc);
	dk_recv(a, ra);
	DK_CHECK(strstr(rc, "enable ") != NULL || strstr(ra, "enable ") != NULL, "nobody was enabled: %s/%s", rc, ra);
	return 0;
}
'''),
dict(id="ack-before-disable", property="C09",
 edits=[("seatd/seat.c", """	if (seat->active_client != NULL) {
		seat_disable_client(seat->active_client);
	}

	vt_ack(seat, true);
	seat->cur_vt = -1;
""", """	if (seat->active_client != NULL && seat->active_client->state == CLIENT_PENDING_DISABLE) {
		// The client has been told already, keep the VT until it is done
		return 0;
	}
	if (seat->active_client != NULL) {
		seat_disable_client(seat->active_client);
	}

	vt_ack(seat, true);
	seat->cur_vt = -1;
""")],
 needs="the user switches back and away again before the session acknowledged its first disable event",
 breaks="the VT release request is never acknowledged, so the VT switch hangs",
 demo=r'''
int main(void) {
	dk_start("1");
	int a = dk_connect();
	dk_send(a, CLIENT_OPEN_SEAT, 0, 0);
	DK_EXPECT(a, "opened enable ");
	dk_clear();
	raise(SIGUSR1);
	DK_EXPECT(a, "disable ");
	DK_CHECK(dk_saw("vt-reldisp 1"), "release not acknowledged");
	dk_vt = 2;
	// back
	dk_vt = 1;
	raise(SIGUSR2);
	DK_EXPECT(a, "");
	// and away again, still without an ack of the disable event
	dk_clear();
	raise(SIGUSR1);
	dk_pump();
	DK_CHECK(dk_saw("vt-reldisp 1"), "second release not acknowledged");
	return 0;
}
'''),
]
