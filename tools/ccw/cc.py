#!/usr/bin/env python3
# Tiny compile cache for the mutation runs (put this directory first in PATH; CCW_REPO, CCW_CACHE).
import hashlib, os, shutil, subprocess, sys
name = os.path.basename(sys.argv[0]); args = sys.argv[1:]
real = "/usr/bin/" + name
if "-c" not in args or "-o" not in args: os.execv(real, [real] + args)
i = args.index("-o"); out = args[i + 1]; rest = args[:i] + args[i + 2:]
pre = subprocess.run([real] + [a for a in rest if a != "-c"] + ["-E"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
if pre.returncode: os.execv(real, [real] + args)
repo = os.environ["CCW_REPO"].encode()
bdir = os.getcwd().encode()
h = hashlib.sha256(b"\0".join(a.encode() for a in rest).replace(repo, b"R").replace(bdir, b"B") + pre.stdout.replace(repo, b"R").replace(bdir, b"B")).hexdigest()
c = os.environ["CCW_CACHE"] + "/" + h + ".o"
if os.path.exists(c):
    shutil.copy(c, out); sys.exit(0)
r = subprocess.run([real] + args)
if r.returncode == 0:
    shutil.copy(out, c + f".{os.getpid()}"); os.rename(c + f".{os.getpid()}", c)
sys.exit(r.returncode)
