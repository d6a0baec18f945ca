#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE (python) defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), and optionally
sh (demo.sh's text after the build), cflags.  Writes seeded/<id>."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    m = runpy.run_path(f)
    d = V + "/seeded/" + m["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    work = "/tmp/mkseed"
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", work])
    for p, a, b in m["edits"]:
        t = open(work + "/" + p).read()
        if t.count(a) != 1:
            sys.exit("%s: %d occurrences in %s of\n%s" % (m["id"], t.count(a), p, a))
        open(work + "/" + p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", work, "diff"], text=True))
    shutil.rmtree(work)
    open(d + "/demo.cpp", "w").write(m["demo"])
    shutil.copy(V + "/tools/seedkit/lib.sh", d)
    shutil.copytree(V + "/shim", d + "/shim")
    open(d + "/demo.sh", "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/lib.sh\"\nbuild %s\n%s\n" % (m.get("cflags", ""), m.get("sh", 'timeout 120 "$T/demo"')))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=m["property"], needs=m["needs"], what_it_breaks=m["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(m["id"])
