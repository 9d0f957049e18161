"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json (run: python3 tools/seeded_table.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table of planted bugs -->\n"


def main():
    rows = []
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as f:
            m = json.load(f)
        rows.append("| {} | {} | {} |\n".format(name, m["property"], m["needs"].replace("|", "/")))
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        head = f.read().split(MARK)[0]
    with open(path, "w") as f:
        f.write(head + MARK + "| change | caught by | needs |\n|---|---|---|\n" + "".join(rows))


main()
