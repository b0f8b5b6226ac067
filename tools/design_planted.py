"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
i = s.index("@@PLANTED@@") if "@@PLANTED@@" in s else s.index("| planted |")
t = "| planted | caught by | needs | breaks |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    t += f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n"
open(p, "w").write(s[:i] + t)
