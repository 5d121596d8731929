#!/usr/bin/env python3
"""known.py PROP fixed|known COMMIT-or-KEY WHAT...: appends a line to known_findings.jsonl"""
import json, sys
p, st, k, what = sys.argv[1], sys.argv[2], sys.argv[3], " ".join(sys.argv[4:])
d = dict(property=p, status=st, key=k if st == "known" else "fixed", what=("fixed: property=%s %s %s" % (p, k, what)) if st == "fixed" else what)
open("/verif/known_findings.jsonl", "a").write(json.dumps(d) + "\n")
