#!/usr/bin/env python3
"""Records the fix: commits of the repository in KNOWN_FINDINGS.json (development only; not run by a check).  usage: fixed.py REPO"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """04dcb4d P01;eb984ce P02;8506593 P02;c87d469 P04;f40d1dc P05;5cf210b P05;a6c5f33 P03;a33c6a5 P06;2ea2b73 P06;fd971be P05;d5618fd P08;308cc98 P08
34334c0 P08;b66a682 P08;3d0186f P09;4cd0f19 P09;a19b18c P10;b1e34d2 P12;e2c9eed P21;1cd9a0f P12;d54b4e0 P12;34e0e77 P21;05a07b2 P21;f487311 P21;cb005d4 P21
5e4c7b6 P10;4bd3e37 P12;2e9f8e9 P14;1741d2a P13;9e9eac2 P15;c530777 P15;9e0c09f P16;5448329 P16;c1c6890 P16;47b5672 P18;3ca7420 P18;8a99519 P18;08445fd P18
4bda10f P17;9fba0eb P18;217919d P18;5a1b5e3 P18;ac7237b P18;4d6fdf2 P19;dc2c7f8 P19;f512b28 P19;9949edf P19;ae0fd34 P19;765b14b P19;716b8e1 P19
d45eead P20;937e057 P20;52865df P21;9611e03 P21;9606d21 P21;0f831bc P21;c2f5d94 P21"""
m = dict(x.split() for x in MAP.replace("\n", ";").split(";"))
for a in sys.argv[2:]:
    c, q = a.split("="); m[c] = q
f = os.path.join(ROOT, "KNOWN_FINDINGS.json")
j = json.load(open(f))
old = {x.split()[2]: x.split()[1].split("=")[1] for x in j.get("fixed", [])}
log = subprocess.run(["git", "-C", sys.argv[1], "log", "--reverse", "--format=%h|%s", "d1831e3..HEAD"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split("|", 1)
    if not s.startswith("fix:"): continue
    q = m.get(h) or old.get(h)
    if not q: print("no property for", l); continue
    out.append("fixed: property=%s %s violated until repaired: %s" % (q, h, s[5:]))
j["fixed"] = out
json.dump(j, open(f, "w"), indent=1); open(f, "a").write("\n")
