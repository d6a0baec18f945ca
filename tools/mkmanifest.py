#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=i, quick_cmd="./check.py " + i, thorough_cmd="VERIF_TIER=thorough ./check.py " + i,
               evidence_file="evidence/%s.json" % i, technique=CHECKS[i]["technique"], level=CHECKS[i]["level"],
               level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS]
na = [dict(property=i, reason="No check yet: its harness is being written.") for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harnesses observe through public and internal interfaces, system calls wrapped at "
                     "link time and loopback sockets. Fixes are listed in known-findings.txt."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
