"""rewrites the table of planted bugs at the end of DESIGN.md (verdicts: tools/seedcheck.py)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read().split("## Planted bugs")[0].rstrip() + "\n\n## Planted bugs\n\n" \
    "Each is caught by the quick check of its property (`tools/seedcheck.py`), unless said otherwise.\n\n| id | property | breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    s += f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
open(p, "w").write(s)
