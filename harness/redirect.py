#!/usr/bin/env python3
# Redirects the libc calls of the given object files to sim_* stand-ins.
# redirect.py [+extra,names] OBJ...
import subprocess, sys
NAMES = """open open64 __open_2 openat openat64 close dup dup2 dup3 fcntl fcntl64 ioctl realpath __realpath_chk
canonicalize_file_name accept accept4 recvmsg recv read sendmsg send write poll __poll_chk ppoll pipe pipe2 socket
socketpair shutdown getsockopt malloc calloc realloc reallocarray free strdup strndup""".split()
def main(objs, prefix="sim_"):
    names = list(NAMES)
    if objs[0].startswith("+"):
        names += objs[0][1:].split(",")
        objs = objs[1:]
    for o in objs:
        args = []
        for n in names:
            args += ["--redefine-sym", f"{n}={prefix}{n}"]
        subprocess.check_call(["objcopy", *args, o])
if __name__ == "__main__":
    main(sys.argv[1:])
