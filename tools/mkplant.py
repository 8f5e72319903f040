#!/usr/bin/env python3
"""mkplant.py FILE.py... : each file defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks,
demo=C text (server kit) or sh=script, files={name: text})].  Writes /verif/seeded/<id>/ and validates it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Builds the named sources of the current directory with demo.c and runs it.
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 -I. -Iinclude -I"$H" \\
  @FLAGS@ -o "$T/demo" "$H/demo.c" @SRCS@ || { echo "demo does not build"; exit 1; }
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout @SECS@ ./demo
"""
only = None
args = sys.argv[1:]
if "--only" in args:
    i = args.index("--only"); only = set(args[i + 1].split(",")); del args[i:i + 2]
for f in args:
    ns = {}
    exec(open(f).read(), ns)
    for p in ns["PLANTS"]:
        if only and p["id"] not in only:
            continue
        d = f"{V}/seeded/{p['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        W = "/tmp/wt"
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", W])
        for fn, old, new in p["edits"]:
            s = open(f"{W}/{fn}").read()
            if s.count(old) != 1:
                print(p["id"], "edit matches", s.count(old), "times in", fn, repr(old[:60])); sys.exit(1)
            open(f"{W}/{fn}", "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "sh" in p:
            open(d + "/demo.sh", "w").write(p["sh"])
        elif p.get("kit") == "lib":
            shutil.copy(V + "/tools/dk/lk.h", d)
            shutil.copy(V + "/tools/dk/lib_demo.sh", d + "/demo.sh")
            open(d + "/demo.c", "w").write('#include "lk.h"\n' + p["demo"])
        elif p.get("srcs"):
            open(d + "/demo.sh", "w").write(SH.replace("@SRCS@", p["srcs"]).replace("@FLAGS@", p.get("flags", "")).replace("@SECS@", str(p.get("secs", 60))))
            open(d + "/demo.c", "w").write(p["demo"])
        else:
            shutil.copy(V + "/tools/dk/dk.h", d)
            shutil.copy(V + "/tools/dk/server_demo.sh", d + "/demo.sh")
            open(d + "/demo.c", "w").write('#include "dk.h"\n' + p["demo"])
        for n, t in p.get("files", {}).items():
            open(f"{d}/{n}", "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        subprocess.call(["bash", V + "/tools/plant.sh", p["id"]])
