"""
Lines of rosemary that no law executes.  usage: PBT_COV=<dir> bash check.sh Cxx quick (for each property), then
python3 tools/uncovered.py <dir>
"""
import dis
import os
import sys

repo = os.environ.get("PBT_REPO", "/repo")
seen = {}
for name in os.listdir(sys.argv[1]):
    for line in open(os.path.join(sys.argv[1], name)):
        f, n = line.rsplit(":", 1)
        seen.setdefault(f, set()).add(int(n))


def lines_of(code):
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            first = c.co_firstlineno
            for (_, _, n) in c.co_lines():
                if n is not None and n != first:
                    yield n
            yield from lines_of(c)


for root, dirs, files in os.walk(os.path.join(repo, "rosemary")):
    if "tests" in root:
        continue
    for name in sorted(files):
        if not name.endswith(".py"):
            continue
        path = os.path.join(root, name)
        text = open(path).read()
        src = text.split("\n")
        want = set(lines_of(compile(text, path, "exec")))
        miss = sorted(n for n in want - seen.get(path, set()) if not src[n - 1].strip().startswith(("def ", "class ", "@", '"""', 'r"""')))
        if miss:
            print(path, len(miss), "of", len(want))
            for n in miss:
                print("   ", n, src[n - 1])
