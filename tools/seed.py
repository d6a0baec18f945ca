#!/usr/bin/env python3
"""seed.py ID [--nocheck]: tries the planted bug seeded/ID in a scratch copy: its demo without and with the patch, then the check."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = V + "/seeded/" + sid
meta = json.load(open(d + "/meta.json"))
base = "/tmp/seed/" + sid
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
shutil.copytree(d, base + "/kit", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
def demo():
    t = time.time()
    r = subprocess.run(["bash", base + "/kit/demo.sh"], cwd=base + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    return r.returncode, r.stdout[-600:], time.time() - t
print("clean:", *demo())
subprocess.check_call(["git", "-C", base + "/repo", "apply", d + "/patch.diff"])
print("patched:", *demo())
if "--nocheck" not in sys.argv:
    env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_BUILD=base + "/build", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    r = subprocess.run([V + "/check.py", meta["property"]], env=env, stdout=subprocess.PIPE, text=True)
    print(r.stdout[-900:], "=> check exit", r.returncode)
shutil.rmtree(base)
