"""Which lines of functions of the package no check executed. Usage: VERIF_LINES=FILE ./run ... (for all checks), then
python tools/unreached.py FILE"""
import collections
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
got = collections.defaultdict(set)
with open(sys.argv[1]) as f:
    for line in f:
        for k, v in json.loads(line).items():
            got[k].update(v)


def walk(code, out):
    if code.co_name != "<module>":
        out.update({n: code.co_qualname for _, _, n in code.co_lines() if n and n != code.co_firstlineno})
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            walk(c, out)


for base, _, names in sorted(os.walk(os.path.join(REPO, "starwinds_magnetogram"))):
    for n in sorted(names):
        if n.endswith(".py"):
            p = os.path.join(base, n)
            rel = os.path.relpath(p, REPO)
            with open(p) as f:
                text = f.read()
            out = {}
            walk(compile(text, p, "exec"), out)
            # Class bodies are executed at import.
            missing = [k for k in sorted(out) if k not in got[rel] and not text.split("\n")[k - 1].strip().startswith(("def ", "@", "class ", '"""', "r\"\"\""))]
            print("%s: %d of %d lines" % (rel, len(out) - len(missing), len(out)))
            for k in missing:
                print("    %4d %s: %s" % (k, out[k], text.split("\n")[k - 1].strip()[:110]))
