#!/usr/bin/env python3
# Names redirected in addition for the start-up harness.
print("+" + ",".join("""bind listen chmod fchmod fchmodat chown lchown fchown fchownat lstat lstat64 stat stat64 fstatat
unlink unlinkat remove rename rmdir""".split()))
