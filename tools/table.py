"""Rewrites the table of planted bugs in DESIGN.md from seeded/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
n = sum(len(v) for v in by.values())
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
tab = "| property | planted bugs (caught by that property's check) |\n|---|---|\n" + "".join(
    "| %s | %s |\n" % (k, ", ".join(sorted(v))) for k, v in sorted(by.items()))
s = re.sub(r"\| property \| planted bugs.*?\n\n", lambda _: tab + "\n", s, flags=re.S)
s = re.sub(r"`seeded/<id>/` holds \d+ changes", "`seeded/<id>/` holds %d changes" % n, s)
open(p, "w").write(s)
