#!/usr/bin/env python3
"""Fills the list of planted changes of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(R + "/seeded/*/meta.json"))]
t = open(R + "/DESIGN.md").read()
t = re.sub(r"(<!-- nseeds -->)\d*", r"\g<1>%d" % len(S), t)
lines = "".join("* `%s` - %s\n" % (i, m["needs"].rstrip(".")) for i, m in S)
t = re.sub(r"(?s)(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda x: x.group(1) + lines + x.group(2), t)
open(R + "/DESIGN.md", "w").write(t)
