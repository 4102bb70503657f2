"""the table of planted bugs in DESIGN.md"""
import json, glob, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
r = ["| bug | property | breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); r.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
f = os.path.join(H, "DESIGN.md"); s = open(f).read()
if "@@SEEDS@@" in s: s = s.replace("@@SEEDS@@", "<!--seeds-->\n<!--end-->")
s = re.sub(r"<!--seeds-->.*?<!--end-->", lambda _: "<!--seeds-->\n" + "\n".join(r) + "\n<!--end-->", s, flags=re.S); open(f, "w").write(s)
