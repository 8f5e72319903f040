#!/usr/bin/env python3
"""mutate.py OUT FILES... [--jobs N] [--scale F]: mechanical mutants of the given source files (relative to /repo), each run against the
harnesses that execute the file.  OUT gets one line per mutant: killed (by which tag), build (does not compile), tests, or SURVIVED."""
import multiprocessing as mp, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def opt(n, d):
    if n in sys.argv:
        i = sys.argv.index(n); v = sys.argv[i + 1]; del sys.argv[i:i + 2]; return v
    return d
JOBS = int(opt("--jobs", "8")); SCALE = float(opt("--scale", "1")); LINES = opt("--lines", "")
OUT = sys.argv[1]; FILES = sys.argv[2:]
SIM = [("sim", "asan", "sim", f"C{p:02d}", 400) for p in (14, 6, 9, 1, 2, 3, 4, 5, 7, 8, 10, 12, 13)]
HID = [("sim", "hid", "sim", p, 400) for p in ("C02", "C04", "C14")]
E2E = [("e2e", "asan", "e2e_sim", "seatd", 300), ("e2e", "asan", "e2e_sim", "builtin", 200)]
BLT = [("sim", "builtin", "sim", "C21", 500)]
LIB = [("lib", "asan", "lib_sim", p, 4000) for p in ("C17", "C18", "C19")]
BACK = [("backend", "asan", "backend_sim", p, 4000) for p in ("select", "noop", "log")] + [("backend", "asan", "backend_real", "real", 4000)]
CONN = [("conn", "asan", "conn_sim", "default", 6000)]
POLL = [("poll", "asan", "poll_sim", "default", 3000), ("poll", "plain", "poll_sim", "step", 3000)]
START = [("start", "asan", "start_sim", "default", 1500)]
LAUNCH = [("launch", "asan", "launch_sim", "default", 1500)]
LOGIND = [("logind", "asan", "logind_sim", "default", 3000), ("logind", "asan", "logind_sim", "leak", 600)]
MAP = {"seatd/seat.c": SIM + HID + BLT + E2E, "seatd/client.c": SIM + BLT + E2E, "seatd/server.c": SIM + BLT + E2E, "seatd/poller.c": POLL + SIM,
       "seatd/seatd.c": START + SIM[:3] + E2E[:1], "common/connection.c": CONN + LIB + SIM + E2E, "common/log.c": BACK[:3], "common/terminal.c": SIM + E2E,
       "common/evdev.c": SIM, "common/drm.c": SIM, "common/hidraw.c": HID + SIM, "common/wscons.c": SIM[:2], "common/linked_list.c": SIM[:4] + LIB,
       "libseat/libseat.c": BACK, "libseat/backend/noop.c": BACK, "libseat/backend/seatd.c": LIB + BACK[3:] + BLT + E2E[1:] + E2E[:1],
       "libseat/backend/logind.c": LOGIND, "seatd-launch/seatd-launch.c": LAUNCH}
def mutants(f):
    src = open("/repo/" + f).read().split("\n")
    out = []
    skip = re.compile(r"^\s*(log_|//|\*|/\*|#|static const|extern|\[)|^\s*\"|^\s*strerror")
    inlog = False
    for n, l in enumerate(src):
        if inlog:
            if ";" in l: inlog = False
            continue
        if re.match(r"^\s*log_", l) and ";" not in l: inlog = True; continue
        if skip.match(l) or not l.strip() or (LINES and not (int(LINES.split("-")[0]) <= n + 1 <= int(LINES.split("-")[1]))): continue
        if re.match(r"^\S", l): continue # file scope
        c = l.split("//")[0]
        s = c.strip()
        def add(new, what):
            if new != l: out.append((n, l, new, what))
        ind = l[:len(l) - len(l.lstrip())]
        # statement deletion
        if s.endswith(";") and not re.match(r"^(return|break;|case|default|(struct|int|char|bool|size_t|ssize_t|uint\d+_t|const|static|pid_t|uid_t|gid_t|va_list|enum|unsigned|socklen_t|sd_bus\w*|DBus\w*|union|float|dev_t|mode_t)\b)", s) and not s.startswith("}") and src[n - 1].rstrip()[-1:] in ";{}:/":
            add(ind + ";", "delete")
        if s == "break;": add(ind + ";", "delete break")
        if re.match(r"^return -1;", s): add(ind + "return 0;", "return 0")
        if re.match(r"^return 0;", s): add(ind + "return -1;", "return -1")
        if re.match(r"^return NULL;", s): pass
        if s in ("return true;",): add(ind + "return false;", "flip")
        if s in ("return false;",): add(ind + "return true;", "flip")
        if s == "return;": add(ind + ";", "delete return")
        if s == "continue;": add(ind + ";", "delete continue")
        m = re.match(r"^(\} else if|if|while) \((.*)\) \{$", s)
        if m:
            add(l.replace("(" + m.group(2) + ") {", "(!(" + m.group(2) + ")) {"), "negate")
            for op in (" && ", " || "):
                parts = m.group(2).split(op)
                if len(parts) > 1 and all(p.count("(") == p.count(")") for p in parts):
                    for i in range(len(parts)):
                        add(l.replace(m.group(2), op.join(parts[:i] + parts[i + 1:])), f"drop clause {i}")
        for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" < ", " > "), (" + ", " - "), (" - ", " + "), (" && ", " || "), (" || ", " && "),
                     ("= true", "= false"), ("= false", "= true"), ("= 0;", "= 1;"), ("= 1;", "= 0;"), ("= -1;", "= 0;"), (", 0)", ", 1)"), ("true)", "false)"), ("false)", "true)"), (" | ", " & "), (" &= ~", " |= "), (" |= ", " &= ")):
            k = -1
            while True:
                k = c.find(a, k + 1)
                if k < 0: break
                add(l[:k] + b + l[k + len(a):], f"{a.strip()}->{b.strip()}")
        for m in re.finditer(r" \| ([A-Z_]{4,})", c):
            add(l[:m.start()] + l[m.end():], "drop flag " + m.group(1))
        m = re.match(r"^errno = (E\w+);", s)
        for m in re.finditer(r"\b([2-9]|1\d)\b", c):
            if "case" not in c: add(l[:m.start()] + str(int(m.group(0)) - 1) + l[m.end():], "const-1")
    seen = set(); res = []
    for x in out:
        if (x[0], x[2]) not in seen: seen.add((x[0], x[2])); res.append((f,) + x)
    return res
def sh(cmd, env=None, t=600):
    e = dict(os.environ); e.update(env or {})
    try: return subprocess.run(cmd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired as x:
        class R: returncode = 124; stdout = b""
        return R
def run(m):
    f, n, old, new, what = m
    w = f"/tmp/mut/{os.getpid()}"; r = w + "/repo"
    if not os.path.exists(r):
        os.makedirs(w); sh(f"git clone -q /repo {r}")
    lines = open("/repo/" + f).read().split("\n"); lines[n] = new
    open(f"{r}/{f}", "w").write("\n".join(lines))
    res = "SURVIVED"
    env = {"PATH": V + "/tools/ccw:" + os.environ["PATH"], "CCW_REPO": r, "CCW_CACHE": "/tmp/mut/cache", "REPO": r}
    try:
        built = set()
        full = MAP[f]
        # a short pass first: most mutants die at once
        for sc, var, exe, prof, cnt in [(a, b, c, d, e // 8) for a, b, c, d, e in full[:6]] + full:
            b = f"{w}/{sc}.{var}"
            if b not in built:
                x = sh(f"bash {V}/harness/build_{sc}.sh {b} {var}", env)
                if x.returncode: res = "build"; break
                built.add(b)
            shutil.rmtree(w + "/s", ignore_errors=True); os.makedirs(w + "/s")
            ao = "detect_leaks=1:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0" if prof == "leak" else "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
            if os.path.exists(w + "/v"): os.unlink(w + "/v")
            x = sh(f"nice -n 5 timeout -k 2 250 {b}/{exe} --profile {prof} --count {int(cnt * SCALE)} --seed 7 --scratch {w}/s --out {w}/o --vfile {w}/v > {w}/log 2>&1", {"ASAN_OPTIONS": ao, "VERIF_OUT": b})
            if x.returncode:
                tag = open(w + "/v", errors="replace").readline().strip() if os.path.exists(w + "/v") else "rc=%d" % x.returncode
                res = f"killed {sc}/{prof} {tag}"; break
    finally:
        sh(f"git -C {r} checkout -q -- .")
    return f"{f}:{n + 1}\t{what}\t{old.strip()}\t=>\t{new.strip()}\t{res}"
if __name__ == "__main__":
    os.makedirs("/tmp/mut/cache", exist_ok=True)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT): done.add(tuple(l.rstrip("\n").split("\t")[:5:1][i] for i in (0, 1, 4)))
    ms = []
    for f in FILES: ms += mutants(f)
    ms = [m for m in ms if (f"{m[0]}:{m[1] + 1}", m[4], m[3].strip()) not in done]
    print(len(ms), "mutants", flush=True)
    with mp.Pool(JOBS) as p, open(OUT, "a") as o:
        for l in p.imap_unordered(run, ms):
            o.write(l + "\n"); o.flush()
