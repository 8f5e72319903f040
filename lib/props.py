from engine import Job

SIM_RULE = ("each case runs the real seatd main() in-process against a scripted world (model consoles, devices, clients over real "
            "socketpairs) with seeded client, user and kernel actions; a case is non-trivial if a session was enabled and requests "
            "were answered; distinct = distinct event traces")
SIM_ASSUME = ["the model kernel (VT, evdev/DRM revocation, poll) in harness/kern.hpp behaves like Linux where seatd can tell",
              "gcc/clang sanitizer runtimes report what they claim to"]
PROPS = {}
VALGRIND = ["valgrind", "-q", "--leak-check=no", "--error-exitcode=99", "--log-file=../san.%p"]


def memcheck(prop, script, exe, profile, quick, thorough):
    """the same workload, not compiled with sanitizers, under Valgrind's memcheck: values that were never written"""
    PROPS[prop]["jobs"].append(Job(script, "plain", exe, profile, quick, thorough, wrap=VALGRIND, budget=(40, 900)))
    PROPS[prop]["must_observe"].append("memcheck.cases")
    PROPS[prop]["memcheck"] = True




def sim(prop, quick, thorough, tags, profile=None, must=(), extra=()):
    PROPS[prop] = dict(rule=SIM_RULE, tags=list(tags), assumptions=SIM_ASSUME, must_observe=list(must),
                       jobs=[Job("sim", "asan", "sim", profile or prop, quick, thorough),
                             Job("sim", "hid", "sim", profile or prop, quick // 4, thorough // 4)] + list(extra))


sim("C01", 36000, 600000, ["excl.*", "proto.event", "vt.second-open", "switch.target"], must=["check.exclusive", "ev.handover"])
sim("C02", 36000, 600000, ["rev.*", "dev.dead", "vt.release-early", "dev.refcount"], must=["check.revoked", "check.reactivated"])
sim("C03", 36000, 600000, ["open.*", "dev.wrong-fd", "dev.no-fd", "dev.refused", "dev.stray-fd", "proto.errcode"], must=["check.open"])
sim("C04", 36000, 500000, ["dev.*", "proto.errcode", "leak.device-fd", "rev.close", "rev.lost"], must=["dev.reopen", "dev.ref-dec", "check.device-limit"])
sim("C05", 36000, 500000, ["leak.*", "life.*", "poll.*", "dev.stray-fd", "switch.idle", "service.*", "rev.close", "dev.not-kept"],
    must=["check.fds", "check.exit"])
sim("C06", 36000, 600000, ["proto.*", "dev.refused", "switch.refused", "dev.bad-close", "excl.bad-ack", "switch.not-holder",
                          "switch.unknown", "switch.bad-number", "dev.stray-fd", "dev.no-fd", "slow.stuck", "life.*"], must=["reply"])
sim("C07", 36000, 600000, ["*"], must=["recv.malformed"])
sim("C08", 36000, 600000, ["switch.*", "excl.*", "service.*"], must=["check.switch-target", "check.idle"])
sim("C09", 36000, 600000, ["vt.*", "switch.*", "excl.*"], must=["check.vt-release", "check.vt-activate"])
sim("C10", 36000, 600000, ["vt.*", "leak.tty-fd"], must=["check.vt-restored", "check.vt-rest"])
sim("C12", 36000, 400000, ["*"], must=["send-blocked", "check.writable-dropped", "act.brim"])
sim("C13", 36000, 500000, ["poll.*", "vt.no-*", "vt.idle", "proto.unanswered", "stop.*", "service.*", "life.*"], must=["poll.ready", "check.signal-wakes", "step.interrupted"],
    extra=[Job("poll", "plain", "poll_sim", "step", 60000, 3000000), Job("poll", "asan", "poll_sim", "default", 30000, 2000000)])
sim("C14", 36000, 600000, ["*"], must=["faults", "check.tried-again", "check.fault-reply", "fault.transparent", "fault.of-client"],
    extra=[Job("sim", "asan", "sim", "C14S", 25600, 512000)])  # one fault, at each of the first 256 places of a history

LIB_RULE = ("each case runs the real libseat seatd backend (libseat_open_seat ... libseat_close_seat) against a scripted model server that "
            "acts inside the library's system calls: fragmented replies, events before/between/after replies, partial sends, EINTR; "
            "non-trivial if a callback, a ping, a fault or a misbehaviour occurred; distinct = distinct traces")
LIB_ASSUME = ["the model server of harness/lib_sim.cpp follows the wire protocol", "sanitizer runtimes report what they claim to"]


def lib(prop, quick, thorough, tags, must):
    PROPS[prop] = dict(rule=LIB_RULE, tags=list(tags), assumptions=LIB_ASSUME, must_observe=list(must),
                       technique="runtime monitoring: online monitor of every libseat call, callback and byte against a model server, plus ASan/UBSan",
                       jobs=[Job("lib", "asan", "lib_sim", prop, quick, thorough)])


lib("C17", 160000, 3000000, ["call.*", "event.*", "dispatch.*", "leak.*", "wake.many-pings", "dead.*"],
    ["check.result", "check.device-fd", "check.close", "app.callback-in-open"])
lib("C18", 160000, 3000000, ["wake.*", "event.lost", "event.order", "event.context", "dispatch.*", "call.poll"], ["check.wake", "check.eventloop", "lib.pings"])
lib("C19", 160000, 3000000, ["*"], ["check.rogue-failed", "check.dead-call", "check.dead-dispatch", "check.open-failed"])

PROPS["C11"] = dict(
    rule=("each case drives connection.c through its API (put, put_fd, flush, read, get, get_fd, restore, close_fds) against a byte-exact "
          "model under partial sends/receives, EAGAIN, EINTR, errors, fd truncation and end of file; 'wrap' cases push more than 2^32 bytes "
          "through each ring; non-trivial if data crossed the ring boundary or fds were passed; distinct = distinct traces"),
    tags=["conn.*"], must_observe=["wrap.ops", "wrap.restore"],
    assumptions=["one process; the peer socket is a real socketpair or a byte-exact in-memory transport"],
    technique="runtime monitoring: byte-exact online model of both rings and of every descriptor, ASan/UBSan, single stepping over the 2^32 index wrap",
    jobs=[Job("conn", "plain", "conn_sim", "wrap", 8, 120, budget=(60, 1200)),
          Job("conn", "asan", "conn_sim", "default", 100000, 3000000)])

PROPS["C15"] = dict(
    rule=("each case is one process running the real daemon main() on real files and sockets in a scratch directory, over option vectors, files "
          "already at the path, umask, set-gid directories, failing system calls and signals; plus stops of the simulated daemon with VTs; "
          "non-trivial: every case; distinct = distinct traces"),
    tags=["start.*", "stop.*", "vt.not-restored", "leak.client-fd"],
    must_observe=["check.clean-stop", "check.refused", "check.failed-start", "check.owner", "check.ready-connect", "check.bad-options", "check.disconnected", "check.loglevel-0", "check.loglevel-1"],
    assumptions=["the harness runs as root in a scratch directory where chown works; users and groups of /etc/passwd"],
    technique="runtime monitoring: one process per case, every file-system call and readiness write observed and checked against the option and path rules, faults injected, ASan/UBSan",
    jobs=[Job("start", "asan", "start_sim", "default", 24000, 800000),
          Job("sim", "asan", "sim", "C10", 8000, 200000)])

PROPS["C16"] = dict(
    rule=("each case runs the real seatd-launch as a process with the ids of a set-uid start; stand-ins for seatd and the command note their "
          "ids, environment, arguments, descriptors and the socket's owner; seatd is slow, dies, stays silent or lies; one failing system call "
          "in a third of the cases; non-trivial: every case; distinct = distinct configurations"),
    tags=["launch.*"],
    must_observe=["check.command", "check.privileges-dropped", "check.not-run", "check.signal-status", "check.exit-status", "check.seatd-start", "check.options", "check.foreign-socket"],
    assumptions=["set-uid start is emulated with setresuid/setresgid", "the stand-ins report truthfully what the kernel shows them"],
    technique="runtime monitoring: real processes whose stand-ins record ids, environment and descriptors, checked offline per case; kill() guarded; faults injected; ASan/UBSan",
    jobs=[Job("launch", "asan", "launch_sim", "default", 8000, 200000)])

PROPS["C22"] = dict(
    rule=("each case opens a seat through the real logind.c and the real libsystemd on a private bus whose other end is a model of the bus and of "
          "logind in the same process; it acts whenever the client side waits: signals of every shape before, between and after replies, error and "
          "malformed replies, loss of the connection at any request, calls from callbacks, an application sharing the bus; non-trivial if more "
          "than the opening happened; distinct = distinct traces"),
    tags=["*"], must_observe=["check.event", "check.pause-complete", "check.quiescent", "check.wake", "check.dead-dispatch", "check.open", "check.app-bus", "check.leaks",
                              "logind.active-invalidated"],
    assumptions=["the model bus and logind in harness/logind_sim.cpp answer like dbus-daemon and logind", "libsystemd 255 as installed",
                 "sanitizer runtimes report what they claim to"],
    technique="runtime monitoring: online monitor of D-Bus traffic, callbacks and results against a model logind; ASan/UBSan/LSan; logical hang detection",
    jobs=[Job("logind", "asan", "logind_sim", "default", 60000, 2000000),
          Job("logind", "asan", "logind_sim", "leak", 2000, 40000, env={"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0"})])

E2E_ASSUME = ["processes are scheduled one system call at a time (no true parallelism; the code shares no memory between processes)",
              "the model consoles and devices of harness/e2e_sim.cpp behave like Linux where the code can tell", "sanitizer runtimes report what they claim to"]
PROPS["C21"] = dict(
    rule=("e2e cases run real applications and their forked embedded servers as processes under one seeded turn scheduler (one system call at a "
          "time) over model consoles and devices, with kills, exits, switches and failing calls at any turn; sim cases run the embedded server "
          "in-process against a scripted client; non-trivial: every case; distinct = distinct global traces"),
    tags=["*"], must_observe=["check.app-fds", "check.ends", "check.device-state", "check.release", "server-killed", "app-killed", "crash-active", "faults",
                              "check.ended-with-client"],
    assumptions=E2E_ASSUME,
    technique="runtime monitoring: whole-system monitor over real processes under a seeded scheduler with kills and faults, descriptor tables of both processes, ASan/UBSan",
    jobs=[Job("e2e", "asan", "e2e_sim", "builtin", 4000, 150000, budget=(240, 5000)),
          Job("sim", "builtin", "sim", "C21", 10000, 300000)])
PROPS["C23"] = dict(
    rule=("each case runs the real seatd daemon and 1 to 4 real libseat applications as processes under one seeded turn scheduler (one system call at "
          "a time) over model consoles and devices: random API programs in and outside callbacks, withheld acknowledgements, kills, exits, VT "
          "switches by the user; non-trivial: every case; distinct = distinct global traces"),
    tags=["*"], must_observe=["check.quiescent", "check.exclusive", "check.device-state", "check.revoked", "check.release", "check.vt", "check.idle",
                              "check.switch-target", "check.server-fds", "check.end", "check.long-path", "crash-active", "app-killed", "server-killed"],
    assumptions=E2E_ASSUME,
    technique="runtime monitoring: whole-system monitor over real processes under a seeded scheduler; logical deadlock detection; ASan/UBSan",
    jobs=[Job("e2e", "asan", "e2e_sim", "seatd", 5000, 200000, budget=(300, 6000))])

PROPS["C20"] = dict(
    rule=("select: libseat_open_seat with scripted seatd/logind/builtin backends over LIBSEAT_BACKEND values, working subsets and listener shapes, all "
          "calls checked for pass-through; real: the real seatd and builtin backends with observed connect() and fork() answering in six ways; noop: "
          "random API programs on files, fifos, links; log: levels, handlers, formats, clock and terminal; non-trivial: every case; distinct = distinct traces"),
    tags=["select.*", "noop.*", "log.*"],
    must_observe=["check.bad-listener", "check.pass-through", "check.select-failed", "check.select-opened", "check.real-failed", "check.real-opened",
                  "check.noop-open", "check.noop-first-dispatch", "check.noop-later-dispatch", "check.noop-switch", "check.noop-nested", "check.log-stderr", "check.log-handler",
                  "check.log-filtered"],
    assumptions=["scripted backends and the stand-ins for connect() and fork() behave like the real ones as far as libseat_open_seat can tell", "sanitizer runtimes report what they claim to"],
    technique="runtime monitoring: recorded backend attempts, system calls, descriptors, callbacks and log output checked online against the selection, noop and logging rules; ASan/UBSan",
    jobs=[Job("backend", "asan", "backend_sim", "select", 80000, 1500000), Job("backend", "asan", "backend_real", "real", 40000, 800000),
          Job("backend", "asan", "backend_sim", "noop", 80000, 1500000), Job("backend", "asan", "backend_sim", "log", 60000, 1000000)])

for _p, _s, _e, _f, _q, _t in (("C06", "sim", "sim", "C06", 2400, 60000), ("C07", "sim", "sim", "C07", 2400, 60000), ("C14", "sim", "sim", "C14", 2400, 60000),
                               ("C11", "conn", "conn_sim", "default", 8000, 200000), ("C17", "lib", "lib_sim", "C17", 6000, 150000),
                               ("C19", "lib", "lib_sim", "C19", 6000, 150000), ("C20", "backend", "backend_sim", "noop", 6000, 150000),
                               ("C20", "backend", "backend_sim", "log", 6000, 150000), ("C22", "logind", "logind_sim", "default", 1200, 30000)):
    memcheck(_p, _s, _e, _f, _q, _t)
