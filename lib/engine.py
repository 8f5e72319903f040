import fnmatch, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CRASH = ["sanitizer", "crash", "hang", "spin", "fd.*"]


class Broken(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root, pats in ((REPO, (".c", ".h")), (HARNESS, None)):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if not x.startswith(("_build", ".git", "__pycache__")))
            for f in sorted(files):
                if pats and not f.endswith(pats):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


_built = {}


def build(script, variant):
    """Builds harness/build_<script>.sh into build/<script>-<variant>."""
    key = (script, variant)
    if key in _built:
        return _built[key]
    out = os.path.join(BUILD, f"{script}-{variant}")
    stamp = os.path.join(out, ".stamp")
    want = tree_hash()
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = dict(os.environ, REPO=REPO)
        p = subprocess.run(["bash", os.path.join(HARNESS, f"build_{script}.sh"), out, variant], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise Broken(f"build of {script} {variant} failed:\n{p.stdout[-4000:]}")
        open(stamp, "w").write(want)
    _built[key] = out
    return out


class Job:
    """One workload: an executable run over a range of cases by some workers."""

    def __init__(self, script, variant, exe, profile, quick, thorough, workers=8, args=(), wrap=(), any_tag=False,
                 budget=(150, 2400), foreign_limit=40, env=None, case_timeout=None, from_=0):
        self.script, self.variant, self.exe, self.profile = script, variant, exe, profile
        self.quick, self.thorough, self.workers = quick, thorough, workers
        self.args, self.wrap, self.any_tag, self.budget = list(args), list(wrap), any_tag, budget
        self.foreign_limit = foreign_limit
        self.env = env or {}
        self.case_timeout = case_timeout
        self.from_ = from_

    def name(self):
        return f"{self.exe}/{self.variant}/{self.profile}" + ("".join(" " + a for a in self.args)) + \
            (f" [{os.path.basename(self.wrap[0])}]" if self.wrap else "")


class Agg:
    def __init__(self):
        self.lock = threading.Lock()
        self.stats, self.states, self.trans, self.cases = {}, set(), set(), set()
        self.n = self.nontrivial = 0
        self.samples, self.notes = [], []
        self.violations, self.foreign = [], []
        self.jobs = {}
        self.stop = False
        self.broken = []

    def merge(self, job, path):
        try:
            o = json.load(open(path))
        except Exception:
            return None
        with self.lock:
            self.n += o["cases"]
            self.nontrivial += o["nontrivial"]
            for k, v in o["stats"].items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.states.update(o["states"])
            self.trans.update(o["transitions"])
            self.cases.update(o["case_hashes"])
            if o["sample"] and len(self.samples) < 2:
                self.samples.append(o["sample"][:1500])
            self.jobs[job.name()] = self.jobs.get(job.name(), 0) + o["cases"]
        return o


def tag_match(tag, pats):
    return any(fnmatch.fnmatchcase(tag, p) for p in pats)


def read_vfile(p):
    d = {"TAG": "", "MSG": "", "CASE": "", "REPLAY": ""}
    try:
        s = open(p, errors="replace").read()
    except OSError:
        return None, ""
    for l in s.splitlines():
        k, _, v = l.partition(" ")
        if k == "TRACE":
            break
        if k in d:
            d[k] = v
    return d, s


def run_job(prop, spec, job, tier, seed, agg, scratch_root, slot):
    out = build(job.script, job.variant)
    exe = os.path.join(out, job.exe)
    count = job.quick if tier == "quick" else job.thorough
    if count <= 0:
        return
    nw = min(job.workers, count)
    bud = job.budget[0 if tier == "quick" else 1]

    def worker(w):
        lo = job.from_ + w * count // nw
        hi = job.from_ + (w + 1) * count // nw
        t_end = time.time() + bud
        foreign = 0
        retried = set()
        while lo < hi and not agg.stop:
            left = t_end - time.time()
            if left <= 0:
                agg.notes.append(f"{job.name()} worker {w}: time budget used up at case {lo} of {hi}")
                return
            d = tempfile.mkdtemp(prefix=f"w{slot}_{w}_", dir=scratch_root)
            os.chmod(d, 0o755)
            o, v, log = d + "/out", d + "/v", d + "/log"
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = f"log_path={d}/san:abort_on_error=0:detect_leaks=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1"
            env["UBSAN_OPTIONS"] = "print_stacktrace=1"
            env["VERIF_OUT"] = out
            env.update(job.env)
            os.mkdir(d + "/s")
            cmd = job.wrap + [exe, "--profile", job.profile, "--seed", str(seed), "--from", str(lo), "--count", str(hi - lo),
                              "--budget", str(int(left)), "--out", o, "--vfile", v, "--scratch", d + "/s"] + job.args
            with open(log, "w") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=d + "/s",
                                     start_new_session=True)
                timed_out = False
                try:
                    hard = time.time() + left + 60
                    while True:
                        try:
                            p.wait(0.2)
                            break
                        except subprocess.TimeoutExpired:
                            if agg.stop or time.time() > hard:
                                timed_out = time.time() > hard
                                break
                finally:
                    if p.poll() is None:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
            rc = p.returncode
            if agg.stop and rc != 10:
                shutil.rmtree(d, ignore_errors=True)
                return
            st = agg.merge(job, o)
            if timed_out:
                agg.notes.append(f"{job.name()} worker {w}: watchdog ended the worker (inconclusive)")
                shutil.rmtree(d, ignore_errors=True)
                return
            if rc == 0:
                shutil.rmtree(d, ignore_errors=True)
                return
            info, text = read_vfile(v)
            san = ""
            for f in sorted(os.listdir(d)):
                if f.startswith("san"):
                    san += open(os.path.join(d, f), errors="replace").read()[:8000]
            logtxt = open(log, errors="replace").read()[-6000:]
            if info is None or not info["TAG"]:
                if rc == 20 or (not san and rc in (1, 2, 126, 127) and not job.wrap):
                    agg.broken.append(f"{job.name()}: exit {rc}: {logtxt[-2500:]}")
                    agg.stop = True
                    return
                info = {"TAG": "sanitizer", "MSG": f"process ended with status {rc}", "CASE": str(st["last_case"] if st else lo),
                        "REPLAY": f"--profile {job.profile} --seed {seed} --from {lo} --count {hi - lo}"}
            rec = dict(job=job, info=info, text=text, san=san, log=logtxt)
            if job.any_tag or tag_match(info["TAG"], spec["tags"] + CRASH):
                with agg.lock:
                    agg.violations.append(rec)
                    agg.stop = True
                return
            foreign += 1
            with agg.lock:
                agg.foreign.append(info["TAG"])
            try:
                lo = int(info["CASE"]) + 1
            except ValueError:
                return
            shutil.rmtree(d, ignore_errors=True)
            if foreign >= job.foreign_limit:
                agg.notes.append(f"{job.name()} worker {w}: stopped after {foreign} violations of other properties at case {lo}")
                return

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(nw)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def save_replay(prop, rec):
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    i = rec["info"]
    body = (f"property {prop}\ntag {i['TAG']}\nwhat {i['MSG']}\n"
            f"rerun: build with 'REPO={REPO} bash {HARNESS}/build_{rec['job'].script}.sh DIR {rec['job'].variant}', then "
            f"'DIR/{rec['job'].exe} {i['REPLAY']} --scratch EMPTYDIR -v {' '.join(rec['job'].args)}'\n\n"
            f"{rec['text']}\n--- sanitizer ---\n{rec['san']}\n--- output ---\n{rec['log']}\n")
    h = hashlib.sha256((i["TAG"] + i["REPLAY"] + i["MSG"]).encode()).hexdigest()[:10]
    p = os.path.join(rdir, f"{prop}-{h}.txt")
    open(p, "w").write(body)
    return p


def known_findings(prop):
    """lines 'known: property=<id> tag=<pattern> match=<substring> :: description'"""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith(f"known: property={prop} "):
                head, _, desc = l.strip().partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split()[1:] if "=" in x)
                f["desc"] = desc
                res.append(f)
    except OSError:
        pass
    return res


def main(argv):
    import props
    if len(argv) != 1 or argv[0] not in props.PROPS:
        print("usage: check.py ID   with ID one of " + " ".join(sorted(props.PROPS)))
        return 2
    prop = argv[0]
    spec = props.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vseatd_")
    os.chmod(scratch, 0o711)
    agg = Agg()
    only = os.environ.get("VERIF_ONLY_JOB")
    try:
        jobs = [j for j in spec["jobs"] if not only or only in j.name()]
        keys = []
        for j in jobs:
            if (j.script, j.variant) not in keys:
                keys.append((j.script, j.variant))
        err = []

        def b(k):
            try:
                build(*k)
            except Broken as e:
                err.append(str(e))
        ths = [threading.Thread(target=b, args=(k,)) for k in keys]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if err:
            print("BUILD FAILED\n" + err[0])
            return 2
        t_build = time.time() - t0
        par = []
        for n, j in enumerate(jobs):
            if getattr(j, "parallel", False):
                t = threading.Thread(target=run_job, args=(prop, spec, j, tier, seed, agg, scratch, n))
                t.start()
                par.append(t)
                continue
            run_job(prop, spec, j, tier, seed, agg, scratch, n)
            if agg.stop:
                break
        for t in par:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    if agg.broken and not agg.violations:
        print("CHECK BROKEN\n" + agg.broken[0])
        return 2
    rc = 0
    known = known_findings(prop)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['desc']}")
    shown = 0
    for rec in agg.violations[:3]:
        i = rec["info"]
        if any(fnmatch.fnmatchcase(i["TAG"], k.get("tag", "")) and k.get("match", "\0") in i["MSG"].replace(" ", "_") for k in known):
            continue
        p = save_replay(prop, rec)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  [{i['TAG']}] {i['MSG']}")
        if rec["san"]:
            print("  " + "\n  ".join(rec["san"].splitlines()[:12]))
        shown += 1
        rc = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": len(agg.cases),
            "rule": spec["rule"],
            "samples": agg.samples or ["(no sample kept)"],
            "distinct_monitor_states": len(agg.states),
            "distinct_monitor_transitions": len(agg.trans),
            "observed": dict(sorted(agg.stats.items())),
            "cases_per_workload": agg.jobs,
            "violations_of_other_properties_seen": {t: agg.foreign.count(t) for t in sorted(set(agg.foreign))},
            "notes": agg.notes[:20],
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": shown,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {agg.n} executions, {len(agg.cases)} distinct non-trivial, {len(agg.states)} states, "
          f"{len(agg.trans)} transitions, {wall:.1f} s" + (" - VIOLATED" if rc else " - held"))
    for n in agg.notes[:5]:
        print("  note: " + n)
    if agg.n == 0 and rc == 0:
        print("CHECK BROKEN: nothing was executed")
        return 2
    # a workload that could not observe what it must observe proves nothing
    if rc == 0:
        for k in spec.get("must_observe", []):
            if not agg.stats.get(k):
                if agg.foreign:
                    continue
                print(f"CHECK BROKEN: never observed '{k}'")
                return 2
    return rc
