"""Fingerprints of the source on which every obligation is known to be discharged.

An obligation that a solver gives up on (without a failing input of the real code) is reported as a violation only
when the code under contract differs from that source: on identical code it is a limit of the machine it runs on.
Comments, docstrings and formatting do not count.  The obligations are generated and attempted on every run whatever
the fingerprints say; a failing input of the real code is a violation in any case.
"""

from __future__ import annotations

import ast
import glob
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "baseline.json")


def _strip(node):
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        node.body = b[1:] or [ast.Pass()]


def _h(node):
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]


def prints(repo):
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, "artist", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(p, repo)
        tree = ast.parse(open(p).read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                _strip(n)

        def walk(node, q):
            for n in list(node.body):
                if isinstance(n, ast.FunctionDef):
                    # overloads and conditional definitions share a name: combine them
                    k = f"{rel}:{q}{n.name}"
                    out[k] = out.get(k, "") + _h(n)
                    n.body = [ast.Pass()]
                elif isinstance(n, ast.ClassDef):
                    walk(n, q + n.name + ".")

        walk(tree, "")
        out[rel] = _h(tree)
    return out


def unchanged(functions, repo):
    """True if the functions, their modules' other statements and the shared constants are as in the baseline."""
    try:
        base = json.load(open(FILE))
        now = prints(repo)
    except Exception:
        return False
    files = {f.split(":")[0] for f in functions} | {f for f in base if f.startswith("artist/util/") and ":" not in f}
    keys = {f.split(".<locals>")[0] for f in functions} | files
    return bool(functions) and all(k in base and now.get(k) == base[k] for k in keys)


if __name__ == "__main__":
    json.dump(prints(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(FILE, "w"), indent=0, sort_keys=True)
