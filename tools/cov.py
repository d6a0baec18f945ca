#!/usr/bin/env python3
"""cov.py ID...: runs checks built with --coverage (into /tmp/covb) and lists the lines of /repo/src that no run reached (development aid)."""
import glob, gzip, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/covb"
os.makedirs(OUT, exist_ok=True)
env = dict(os.environ, VERIF_BUILD=OUT, VERIF_SEED="1", VERIF_TIER="quick")
drv = "import sys; sys.path.insert(0, %r); import build as B\nfor k in B.FLAVORS: B.FLAVORS[k] = '-O0 -g1 --coverage -fprofile-update=atomic'\nsys.path.insert(0, %r); sys.argv = ['check.py', %%r]; import check; sys.exit(check.main())" % (V + "/lib", V)
for i in sys.argv[1:]:
    p = subprocess.run([sys.executable, "-c", drv % i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(i, p.returncode, p.stdout.strip().splitlines()[-1:], flush=True)
hit = {}
for g in glob.glob(OUT + "/*/obj/repo__src*.gcda"):
    o = subprocess.run(["gcov", "-j", "-t", g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=OUT).stdout
    for doc in o.splitlines():
        try: d = json.loads(doc)
        except ValueError: continue
        for f in d["files"]:
            if not f["file"].startswith("/repo/src"): continue
            h = hit.setdefault(f["file"], {})
            for l in f["lines"]: h[l["line_number"]] = h.get(l["line_number"], 0) + l["count"]
allf = [os.path.join(r, f) for r, _, fs in os.walk("/repo/src") for f in fs if f.endswith((".cpp", ".h"))]
for f in sorted(allf):
    h = hit.get(f)
    if h is None:
        if f.endswith(".cpp"): print("NEVER", f)
        continue
    miss = [l for l in sorted(h) if not h[l]]
    if not miss: continue
    print("%s: %d of %d missed" % (f[6:], len(miss), len(h)))
    src = open(f).read().split("\n")
    for l in miss: print("   %4d %s" % (l, src[l - 1].strip()[:110]))
