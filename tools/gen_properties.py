#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=obs, hook_needed=hook)))

NOT_SERVER = "The repository has no test of the server at all: tests/ only exercises linked_list, connection and poller on single fixed inputs."

p("C01", "At most one session holds the seat",
  "On a seat at most one client session is enabled at any moment. Another session is sent its enable event only after the session enabled before it has acknowledged its disable event, closed its seat or disconnected, and never while that session still holds the seat. A session that does not hold the seat, or has been told to disable, can never regain it except through a new enable event.",
  ["schedules", "histories"], "every order in which any number of clients connect, open, close, ack, switch, crash and every interleaving with VT signals, VT-bound or not",
  NOT_SERVER + " Exclusivity is a statement about all interleavings of several clients.",
  ["seatd/seat.c", "seatd/client.c", "seatd/server.c"],
  [("single active client pointer, checked before every open", "seat_open_client"), ("pending-disable state held until the ack", "seat_disable_client / seat_ack_disable_client"), ("activation only when no client is active", "seat_activate")],
  ["bytes the server sends to each client (ENABLE_SEAT/DISABLE_SEAT) and bytes it consumes from each client, in global order"],
  [("active_client", "session currently holding the seat", "struct seat"), ("state", "life-cycle of a session", "struct client")])

p("C02", "Device access is revoked before the seat moves on",
  "Whenever a session stops holding the seat, whether it is told to disable, closes its seat, disconnects or crashes, every input and hidraw device opened for it has been revoked and DRM master has been dropped on every DRM device opened for it, before the disable event is sent, before a VT release is acknowledged and before any other session is enabled; a device the session closes is revoked before the daemon lets go of it. A session that is enabled again has DRM master restored on its still-open DRM devices before it is told, while revoked input devices stay revoked; at any quiescent moment the only working device handles belong to the session that holds the seat.",
  ["schedules", "histories"], "every sequence of device opens/closes (any mix of types, any number up to the limit, repeated opens) combined with every way of losing and regaining the seat",
  NOT_SERVER + " Revocation is visible only in the ioctls made on device fds, for all histories.",
  ["seatd/seat.c", "common/drm.c", "common/evdev.c", "common/hidraw.c"],
  [("deactivate all devices before sending disable", "seat_disable_client"), ("close/deactivate each device on removal before activating the next client", "seat_remove_client, seat_close_device"), ("re-activate devices before enable", "seat_open_client, seat_activate_device")],
  ["EVIOCREVOKE / HIDIOCREVOKE / DRM_IOCTL_SET_MASTER / DRM_IOCTL_DROP_MASTER / VT_RELDISP ioctls and sent events, in global order, keyed by open file description"],
  [("seat_device.active", "device currently usable by its session", "struct seat_device")])

p("C03", "Only the seat holder opens only seat devices",
  "The daemon opens a device on behalf of a client only while that client's session is enabled, and only if the path, after resolving every symlink and dot component, names a DRM node (under /dev/dri/), an evdev node (/dev/input/event*) or, where revocation is supported, a hidraw node (/dev/hidraw*). What it opens is exactly that resolved path, without following links, non-blocking, close-on-exec and without acquiring a controlling terminal. Every other request gets an error reply, opens nothing and delivers no file descriptor.",
  ["inputs", "histories"], "every path string (relative, dotted, symlinked in or out of /dev, over-long, missing, embedded directories, prefix look-alikes) in every session state",
  NOT_SERVER + " Path checks must hold for all strings and all states.",
  ["seatd/seat.c", "common/drm.c", "common/evdev.c", "common/hidraw.c", "common/wscons.c"],
  [("realpath before classification, open of the resolved path", "seat_open_device"), ("state check", "seat_open_device"), ("prefix classifiers", "path_is_drm, path_is_evdev, path_is_hidraw")],
  ["open() calls made by the daemon while serving a client, with path and flags; replies and fds sent to the client"])

p("C04", "Device ids and handles stay consistent per session",
  "A successful device open returns a positive id and one file descriptor referring to the very device asked for; devices open at the same time in a session have different ids. Opening a device again while it is open returns the same id and the same open device, and it stays open until it has been closed as many times as it was opened. Closing an id that is not open in that session is refused with EBADF and affects nothing, in particular no other session's devices; a session can have 128 different devices open, further ones are refused with EMFILE until one is closed.",
  ["histories", "inputs"], "every sequence of opens and closes, including repeated opens via different names of one device, double closes, foreign and arbitrary ids, and runs into the limit",
  NOT_SERVER + " The bookkeeping must match a reference count over every history.",
  ["seatd/seat.c", "seatd/client.c"],
  [("reference count and id allocation", "seat_open_device"), ("count down and release at zero", "seat_close_device"), ("lookup per client", "seat_find_device")],
  ["DEVICE_OPENED/DEVICE_CLOSED/ERROR replies, file identity of the fd received, open/close/ioctl calls on the device"],
  [("devices", "open devices of one session", "struct client"), ("ref_cnt", "outstanding opens", "struct seat_device")])

p("C05", "Nothing outlives its owner",
  "Once a client's device, seat or connection is gone, for whatever reason and in whatever state, the daemon holds no file descriptor, memory, queued switch or poll registration on its behalf, and file descriptors a client pushed at the daemon are closed. The daemon never closes a descriptor it does not own or closes one twice, and never touches freed memory. Any number of connect/use/disconnect rounds leaves its resource usage where it started, and shutting down releases everything.",
  ["histories", "fault_sequences"], "every history of connects, requests, fd-carrying messages and abrupt disconnects at every point, including during a pending switch and while replies are queued",
  NOT_SERVER + " Leaks and stale references show only over whole histories.",
  ["seatd/client.c", "seatd/seat.c", "seatd/poller.c", "common/connection.c", "seatd/server.c"],
  [("teardown", "client_destroy, seat_remove_client, server_finish"), ("deferred removal of event sources", "event_source_fd_destroy, regenerate"), ("closing queued fds", "connection_close_fds")],
  ["allocation and fd accounting at the libc boundary at quiescent points; AddressSanitizer; EBADF from close()"])

p("C06", "Every request is answered exactly once, in order",
  "Each well-formed request the daemon reads from a connected client is answered by exactly one reply of the matching kind, or one error reply whose code states the reason (not holding the seat: EPERM; unknown device id: EBADF; unusable path: ENOENT or the file-system error; bad session number: EINVAL; no disable pending: EBUSY), in request order, with events interleaved between complete messages. Requests that are illegal in the client's state (no seat open, opening a seat it may not join) end the connection. This does not depend on how the bytes are split or batched on the socket, and replies carry no uninitialised data.",
  ["inputs", "schedules"], "every sequence of valid requests in every session state, every fragmentation and pipelining of the byte stream, any interleaving of clients",
  NOT_SERVER + " Framing has to be right for every split of every stream.",
  ["seatd/client.c", "common/connection.c", "include/protocol.h"],
  [("dispatch loop with restore of incomplete messages", "client_handle_connection"), ("per-opcode handlers", "client_handle_opcode")],
  ["byte streams in both directions per client, compared with a reference model of the protocol"])

p("C07", "Malformed or hostile input only hurts its sender",
  "No byte stream, file-descriptor payload or disconnect timing makes the daemon crash, abort, hang, spin or execute undefined behaviour. A client that violates the protocol (unknown opcode, wrong size, over-long or unterminated path, oversized message, too many descriptors) is disconnected without a further effect. Every other client's session, devices and replies are exactly as if the offender had simply disconnected.",
  ["inputs", "histories"], "every byte stream of arbitrary length from any number of clients mixed with well-behaved ones",
  NOT_SERVER + " No fuzzing exists.",
  ["seatd/client.c", "common/connection.c", "seatd/seat.c", "seatd/poller.c"],
  [("size checks per opcode", "client_handle_opcode"), ("buffer overflow refusal", "connection_read, decode_cmsg"), ("destroy on failure", "client_handle_connection")],
  ["sanitizer reports, process exit, replies to well-behaved clients, calls made on behalf of the offender"])

p("C08", "Session switching reaches the requested session",
  "On a seat that is not VT-bound, a switch request by the enabled session naming another session's (positive) number makes the daemon send the requester a disable event, and once the requester acknowledges or leaves, exactly the requested session is enabled, or another waiting session if the requested one has left meanwhile. Requests from sessions that are not enabled are refused with EPERM, non-positive or unknown numbers with EINVAL, the session's own number changes nothing, and a second request while one is in progress does not replace it. Whenever no session is enabled or being disabled, and some session is waiting for the seat, one of the waiting sessions is enabled; departures never leave the seat idle or pointing at a departed session.",
  ["schedules", "histories"], "every order of switch requests, acks, joins, closes and crashes of requester, target and bystanders",
  NOT_SERVER + " Needs multi-client histories.",
  ["seatd/seat.c", "seatd/client.c"],
  [("queued next client", "seat_set_next_session, seat_activate"), ("clearing the queue when the target leaves", "seat_remove_client")],
  ["requests, replies and ENABLE/DISABLE events of all clients"],
  [("next_client", "queued target of a switch", "struct seat")])

p("C09", "The VT switch handshake is always completed correctly",
  "On a VT-bound seat every VT release signal is acknowledged to the kernel, without waiting for the client but only after the enabled session has been told to disable, and every acquire signal is acknowledged. A session is enabled only while the VT it was opened on is in the foreground, and when a VT with a waiting session comes to the foreground and no other session is still disabling, that session is enabled. A switch request from the enabled session makes the daemon ask the kernel for exactly the requested VT, and opening a seat is refused while another session is enabled.",
  ["schedules", "histories"], "every order of user VT switches, client switch requests, acks, connects and crashes, on seatd-controlled and ordinary VTs, in particular events falling between release and acquire",
  NOT_SERVER + " Needs a VT, which the tests cannot have.",
  ["seatd/seat.c", "seatd/server.c", "common/terminal.c"],
  [("release/acquire handlers", "seat_vt_release, seat_vt_activate"), ("current VT tracking", "seat_update_vt, cur_vt"), ("VT-matching activation", "seat_activate")],
  ["VT ioctls as seen by a model of the Linux console, and events sent to clients"],
  [("cur_vt", "VT believed to be in the foreground, -1 after a release", "struct seat")])

p("C10", "A session's VT is set up while used and usable afterwards",
  "When a session is enabled on a VT-bound seat, its VT is in graphics mode, kernel keyboard processing is off and VT switching is under process control before the session is told. When a session ends for any reason (seat closed, disconnect, crash, daemon shutdown), whether or not it holds the seat and whichever VT is in the foreground, its VT is back in text mode with keyboard processing on, unless another session has been enabled on that same VT; no other VT is changed by it.",
  ["schedules", "histories"], "every history of sessions on several VTs ending in every state (never enabled, enabled, disabling, disabled, in the middle of a VT switch)",
  NOT_SERVER + " Needs a VT, which the tests cannot have.",
  ["seatd/seat.c", "common/terminal.c"],
  [("VT set-up", "vt_open"), ("VT restoration on client removal", "seat_remove_client, vt_close")],
  ["KDSETMODE / KDSKBMODE / VT_SETMODE state per VT in a model of the Linux console"])

p("C11", "The connection layer loses, reorders and duplicates nothing",
  "Bytes and file descriptors put into a connection come out of its peer exactly once and in order, for any mix of message sizes, partial writes, short reads, interrupted calls and full socket buffers, for connections of unlimited age. A read that cannot be satisfied completely takes nothing; giving back the bytes just read makes them readable again; exceeding a buffer's capacity is reported as an error and corrupts nothing already queued. Every descriptor accepted by the connection is handed over, handed to its reader, or closed exactly once.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of put/flush/read/get/restore/put_fd/get_fd/close operations under every pattern of partial I/O and EINTR/EAGAIN",
  "tests/connection.c covers seven fixed exchanges, none with partial I/O, wrap-around, descriptors or errors.",
  ["common/connection.c", "include/connection.h"],
  [("ring buffer with free-running 32-bit indices", "connection_buffer_*"), ("SCM_RIGHTS packing/unpacking", "build_cmsg, decode_cmsg"), ("flush loop", "connection_flush")],
  ["results of the connection API on both ends of a real socketpair with an injected I/O pattern, against a FIFO model"],
  [("head/tail", "ring indices", "struct connection_buffer")])

p("C12", "A client that stops reading neither blocks nor corrupts anything",
  "The daemon never blocks on a client that does not read its socket. All replies and events for such a client are delivered complete and in order once it reads again, without it having to send anything first; if they cannot be kept, the client is disconnected instead of losing any of them. Meanwhile other clients are served, and the stalled client's loss of the seat (revocation, handover after it leaves) proceeds as usual. The daemon waits for a client to become writable only while it has something to send to it, so a slow client never makes it run busily.",
  ["schedules", "inputs"], "every point at which a client stops and resumes reading, with any amount of queued output, including events caused by other clients or VT signals",
  NOT_SERVER + " No test fills a socket buffer.",
  ["seatd/client.c", "common/connection.c", "seatd/poller.c"],
  [("EAGAIN handling and write-readiness registration", "client_flush, client_handle_connection"), ("bounded output buffer", "connection_put"), ("event sending", "client_send_enable_seat, client_send_disable_seat")],
  ["client byte streams after resuming, poll() interest set of the daemon, system calls on the client socket"])

p("C13", "The event loop loses no signal and no readiness",
  "After a registered signal is raised at any instant, including while its own or another handler is running, its handler is called again; signals raised before a handler starts may coalesce. Each ready descriptor's callback runs with the readiness that was reported, for the interest mask in force; once a source has been removed its callback never runs again, even when removed by another callback in the same round, and sources may be added, updated or removed freely from callbacks. Interrupted waits are retried and errno seen by interrupted code is preserved.",
  ["schedules", "histories"], "every interleaving of raised signals with the loop's instructions at system-call granularity, every dynamic add/update/remove from inside and outside callbacks, any number of sources",
  "tests/poller.c raises signals only while the loop is idle and never adds or removes sources dynamically.",
  ["seatd/poller.c", "include/poller.h"],
  [("self-pipe plus raised flag", "signal_handler, dispatch"), ("lazy removal with killed flag", "event_source_fd_destroy, regenerate")],
  ["callback invocations versus raised signals and pipe readiness, through the poller API with signals injected at wrapped system calls"],
  [("raised", "signal pending", "struct event_source_signal"), ("killed", "source removed, memory still live", "struct event_source_fd")])

p("C14", "Failing resources never take the daemon or its guarantees down",
  "When system calls or allocations fail at any point (no descriptors, no memory, device open/ioctl errors, tty errors, failed accept, dup or send), the daemon never crashes or aborts; the affected request gets an error reply or the affected client is disconnected, and when memory for the event loop itself is exhausted the daemon at worst shuts down in order. Exclusivity holds and nothing leaks; every revocation is still attempted for every device, even if one of them fails. Once failures stop, the daemon serves new sessions normally.",
  ["fault_sequences", "histories"], "every single and random multiple failure of any libc call the daemon makes, at every occurrence, within client/VT histories",
  NOT_SERVER + " No fault injection exists.",
  ["seatd/seat.c", "seatd/client.c", "seatd/server.c", "seatd/poller.c", "common/terminal.c", "common/connection.c"],
  [("error paths", "seat_open_device, handle_open_device, server_add_client, vt_open, vt_close, vt_ack"), ("continue revoking after an error", "seat_disable_client, seat_remove_client")],
  ["the same monitors as C01/C02/C05/C07 while faults are injected at the libc boundary; service check afterwards"])

p("C15", "Daemon start-up and shutdown handle the socket safely",
  "Starting up, seatd never removes or replaces anything but a socket at its socket path, and it refuses to start if something else is there, or, when run for seatd-launch, if anything at all is there. With -u/-g the socket ends up with mode 0770 and the requested owner and group (the other left unchanged), and if that cannot be done seatd exits with failure without serving; conflicting or invalid options are rejected before anything is touched. Readiness is announced with exactly one newline on the given descriptor, which is then closed, and only once clients can connect; on SIGTERM or SIGINT seatd disconnects its clients, restores their VTs, removes its socket and exits with status 0, on any start-up failure with a non-zero status and, unless silenced, a message. What seatd logs respects the level chosen with -l.",
  ["configurations", "fault_sequences", "inputs"], "every combination of options, pre-existing file at the path, environment and failing start-up system call",
  NOT_SERVER + " Start-up is not tested.",
  ["seatd/seatd.c", "seatd/server.c"],
  [("lstat/unlink policy", "main"), ("bind/listen/chmod/chown", "open_socket"), ("readiness write", "main"), ("signal-driven stop", "server_handle_kill, server_finish")],
  ["system calls and file-system effects at the socket path, exit status, readiness fd"])

p("C16", "seatd-launch never runs the command with more than the user's rights",
  "seatd-launch runs the given command only after its own seatd has announced readiness and the socket belongs to the invoking user with mode 0700, with real, effective and saved user and group ids all equal to the invoking user's, with SEATD_SOCK naming the socket and with no descriptor of the readiness channel; if any of these steps fails, the command is not run, a message says so, and a socket that is already there is not touched unless its own seatd became ready. seatd is started with an empty environment, the requested log level and the -z option. seatd-launch exits with the command's exit status, or 128+N if it died of signal N, keeps its seatd running while the command runs and terminates it whenever it ends, signals no other process, and exits non-zero on any failure of its own.",
  ["configurations", "fault_sequences", "inputs"], "every argument vector, invoking user, exit status and signal of the command, behaviour of seatd (slow, dying, silent), and failing system call",
  "seatd-launch has no tests.",
  ["seatd-launch/seatd-launch.c"],
  [("readiness wait", "main"), ("chown/chmod/setgid/setuid before fork", "main"), ("status propagation", "main")],
  ["ids, environment, argv and open descriptors of the processes it starts; its exit status; file mode and owner of the socket; kill() calls"])

p("C17", "libseat calls return what the server said, events in order",
  "With the seatd backend each libseat call returns the outcome the server gave to that very request (device id with the accompanying descriptor, success, or -1 with errno equal to the server's error code), however the server's bytes are split and whatever events are interleaved before or after the reply, and arguments it rejects itself (negative ids or sessions, over-long paths) leave the connection usable. Every enable and disable event sent by the server leads to exactly one listener callback, in the order sent, from within libseat_open_seat, libseat_dispatch or libseat_close_seat only, also when callbacks make libseat calls themselves. The connection and every device descriptor are close-on-exec, so that no program the application executes holds the seat. libseat_dispatch returns the positive number of messages when it processed any, 0 when there was nothing, and never blocks after having run a callback.",
  ["inputs", "schedules"], "every interleaving of requests, replies and events, every fragmentation of the server's stream, calls made from callbacks",
  "libseat has no tests.",
  ["libseat/backend/seatd.c", "libseat/libseat.c", "common/connection.c"],
  [("reply wait that queues events", "read_until_response, read_and_queue"), ("ordered event execution", "queue_event, execute_events"), ("reply validation", "read_header")],
  ["libseat API calls/returns and callbacks versus the script of a model server"],
  [("pending_events", "events read but not delivered", "struct backend_seatd")])

p("C18", "libseat never leaves a queued event without a wake-up",
  "Whenever a libseat call returns with an event read from the server but not yet delivered, the descriptor from libseat_get_fd becomes readable without any further action by the application, so an application that only dispatches when that descriptor is readable receives every event. An application that waits in libseat_dispatch with no timeout is woken by every event. At most one wake-up request is outstanding at a time, and its answer is never mistaken for a reply.",
  ["schedules", "inputs"], "every placement of events around replies and every split of the stream, with applications that only react to readability",
  "libseat has no tests.",
  ["libseat/backend/seatd.c"],
  [("self-ping", "check_pending_events, send_ping, awaiting_pong"), ("event queue", "read_and_queue")],
  ["readability of the libseat fd, pings seen by the model server, callbacks delivered"],
  [("awaiting_pong", "a ping is outstanding", "struct backend_seatd")])

p("C19", "libseat fails cleanly when the server dies or misbehaves",
  "If the server disconnects, resets, stops mid-message or sends anything that is not a valid answer (wrong opcode, wrong size, missing descriptor, over-long or unterminated name, oversized message), the libseat call in progress fails with NULL or -1 and errno set, later calls fail immediately without blocking, and libseat_close_seat still releases everything. A dead server is reported by libseat_dispatch even with a zero timeout. No byte stream from the server causes memory errors, leaked or doubly closed descriptors, and failed opens leave no trace.",
  ["inputs", "fault_sequences", "crash_points"], "every prefix of every server byte stream, every malformed reply, in every libseat call, failing socket calls and allocations",
  "libseat has no tests.",
  ["libseat/backend/seatd.c", "common/connection.c"],
  [("sticky error state", "set_error, cleanup"), ("message validation", "read_header, _open_seat"), ("hang-up detection", "poll_connection, dispatch")],
  ["API results, fd and allocation accounting, logical hang detection (blocking poll with nothing in flight and the peer gone), sanitizers"],
  [("error", "connection is dead", "struct backend_seatd")])

p("C20", "Backend selection honours the request",
  "libseat_open_seat rejects a missing or incomplete listener with EINVAL and touches nothing. With LIBSEAT_BACKEND set it uses exactly the named backend or fails (EINVAL for an unknown name), never another one; otherwise it tries seatd, logind and builtin in that order, never noop, returns the first that works and otherwise fails with ENOSYS, leaving no descriptors behind. The noop backend enables its seat exactly once on the first dispatch, which does not wait, opens paths directly with the same open flags, and refuses switching; log output respects the configured level and handler and never changes errno.",
  ["configurations", "inputs", "fault_sequences"], "every value of LIBSEAT_BACKEND, every subset of working backends, every listener shape, every log level and handler",
  "libseat has no tests.",
  ["libseat/libseat.c", "libseat/backend/noop.c", "common/log.c"],
  [("backend table", "impls, libseat_open_seat"), ("noop backend", "libseat/backend/noop.c"), ("log filter", "_logf")],
  ["which sockets/opens/forks are attempted, return value and errno, log handler calls"])

p("C21", "The embedded server lives exactly as long as its seat",
  "With the builtin backend, libseat_open_seat starts one private server process that serves this seat alone with the same session, device and revocation behaviour as seatd. It ends, with its devices revoked and its VT restored, when the seat is closed, when the opening fails, or when the application exits or is killed, and the application never blocks or crashes because of it; if it dies, libseat calls fail as for a lost connection. No other descriptor of the connection is left in either process, and the application's end is close-on-exec.",
  ["histories", "crash_points", "configurations"], "every way the application or the server process ends, at every point of a device/seat history",
  "Nothing runs the builtin backend in the test suite.",
  ["libseat/backend/seatd.c", "seatd/client.c", "seatd/server.c"],
  [("fork and socketpair", "builtin_open_seat"), ("stop when the only client goes", "client_destroy (LIBSEAT)")],
  ["process exit observed by wait, device ioctls logged by both processes, descriptors of both processes"])

p("C22", "The logind backend maps logind state to seat events faithfully",
  "With the logind backend the first dispatch reports the session's current state and returns without waiting, and after that the listener sees enable and disable strictly alternating, following every change of the session's Active property (sent with value or invalidated) and every pause request, and only those of its own session. A device paused with 'pause' is acknowledged with PauseDeviceComplete for the same device only after the disable callback ran; 'gone' and 'force' are not acknowledged. Opening takes control and closing releases it; device and switch calls pass the right device numbers and session to logind and return what logind answered, also when signals arrive in the middle of a call, without memory errors or leaks, and undelivered signals always make the descriptor readable. Failed calls return -1 with logind's error in errno; when the bus connection is lost every call fails and libseat_dispatch reports it rather than waiting.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of signals with calls, every property-change message shape, error replies from the bus",
  "libseat has no tests; the logind backend needs a bus.",
  ["libseat/backend/logind.c"],
  [("signal handlers", "handle_pause_device, handle_properties_changed, set_active"), ("ping to wake the caller", "check_pending_events"), ("bus calls", "open_device, close_device, switch_session")],
  ["D-Bus traffic at a model logind, listener callbacks, API results, sanitizer and out-parameter size checks at the sd-bus boundary"],
  [("active", "session state last reported", "struct backend_logind")])

p("C23", "Well-behaved libseat clients and seatd always make progress together",
  "For any number of libseat applications following the documented protocol against a real seatd, no call deadlocks or fails unexpectedly: each application's enable and disable callbacks alternate, between an application's enable callback and its acknowledgement no other application is enabled, devices opened while enabled are handed out working and can be closed at any time, and every requested switch to a live session takes effect once the current holder acknowledges. When an application exits or crashes, the others continue, and a waiting one is enabled.",
  ["schedules", "histories", "crash_points"], "every scheduling of the server and several applications running arbitrary programs over the libseat API",
  "No test runs client and server together.",
  ["libseat/backend/seatd.c", "seatd/client.c", "seatd/seat.c", "seatd/server.c", "common/connection.c"],
  [("client and server halves of the protocol", "libseat/backend/seatd.c, seatd/client.c"), ("seat state machine", "seatd/seat.c")],
  ["API-level histories of several applications run against the unmodified server under a seeded scheduler that detects deadlock logically"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
