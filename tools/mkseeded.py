"""Write section 5 of DESIGN.md from seeded/*/meta.json and a table of results.

Usage: mkseeded.py RESULTS, one line "ID caught|missed|note" each.
"""

import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent


def main():
    res = {}
    for line in open(sys.argv[1]):
        name, _, rest = line.strip().partition(" ")
        if name:
            res[name] = rest
    out = [
        "Changes written from the statements alone, each passing the existing tests; the",
        "check is the quick check of the property that the change breaks.",
        "",
        "| change | needs | quick check |",
        "|---|---|---|",
    ]
    for d in sorted((ROOT / "seeded").iterdir()):
        if not (d / "meta.json").exists():
            continue
        m = json.load(open(d / "meta.json"))
        out.append(f"| {d.name} | {m['needs']} | {res.get(d.name, 'not run')} |")
    f = ROOT / "DESIGN.md"
    a, rest = f.read_text().split("<!-- seeded:begin -->")
    b = rest.split("<!-- seeded:end -->")[1]
    body = "\n".join(out)
    f.write_text(f"{a}<!-- seeded:begin -->\n{body}\n<!-- seeded:end -->{b}")


main()
