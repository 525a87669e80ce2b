"""The table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded -->\n"


def main():
    rows = {}
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        rows.setdefault(m["property"], []).append(d)
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read().split(MARK)[0]
    s += MARK + "| caught by the check of | planted bugs |\n|---|---|\n"
    for k in sorted(rows):
        s += "| %s (%d) | %s |\n" % (k, len(rows[k]), ", ".join(rows[k]))
    open(p, "w").write(s)


main()
