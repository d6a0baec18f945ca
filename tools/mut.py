#!/usr/bin/env python3
"""mut.py ID file 'old' 'new' ...: runs check ID against a scratch copy of /repo with a textual change (development aid)."""
import os, shutil, subprocess, sys
pid, f = sys.argv[1:3]
pairs = list(zip(sys.argv[3::2], sys.argv[4::2]))
base = "/tmp/mut/%s" % pid
shutil.rmtree(base + "/repo", ignore_errors=True)
os.makedirs(base, exist_ok=True)
shutil.copytree("/repo", base + "/repo", ignore=shutil.ignore_patterns("_build", ".git"))
p = base + "/repo/" + f
s = open(p).read()
for a, b in pairs:
    a = a.encode().decode("unicode_escape"); b = b.encode().decode("unicode_escape")
    if a not in s:
        sys.exit("pattern not found: " + a)
    s = s.replace(a, b, 1)
open(p, "w").write(s)
env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_BUILD=base + "/build")
r = subprocess.run(["/verif/check.py", pid], env=env, stdout=subprocess.PIPE, text=True)
print(r.stdout[-1500:], "=> exit", r.returncode)
