"""Writes DESIGN.md: tools/design_head.md and the table of planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append((m["property"], os.path.basename(d), m["needs"], m["what_it_breaks"]))
missed = set(open(os.path.join(HERE, "tools", "missed.txt")).read().split())
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(HERE, "tools", "design_head.md")).read())
    f.write("## Planted bugs and the checks that catch them\n\n"
            "Each is in `seeded/<id>` with a demonstration; tried with the quick tier of the check of its property.\n\n"
            "| property | bug | needs | breaks | caught by |\n|---|---|---|---|---|\n")
    for p, i, n, b in sorted(rows):
        f.write(f"| {p} | {i} | {n} | {b} | {'missed' if i in missed else 'bin/check ' + p} |\n")
