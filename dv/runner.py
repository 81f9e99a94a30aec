"""Decide one property: discharge every obligation of its contracts against /repo's current source."""

from __future__ import annotations

import glob
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

from dv import baseline

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "z3 5.3.2, cvc5 1.4.2 and the ring normaliser dv/poly.py (polynomial division over exact rationals)",
    "dv/symtorch.py: assumed contracts on the torch operations (symbolic semantics), cross-checked against real torch on every run by executing each contract concretely on random inputs",
    "dv/loader.py: the verified text is the source files under /repo/artist compiled as they are; only torch, math, torchvision and a few builtins are replaced by symbolic-aware versions",
    "CPython executes the (real) Python control flow; paths are enumerated by forking on symbolic truth values",
]
ASSUMED = [
    "machine floats treated as mathematical reals, machine integers as mathematical integers (rounding, overflow and NaN propagation are not modelled)",
    "autograd bookkeeping, devices and logging have no effect on values",
    "defining axioms of sin, cos, atan2, sqrt, exp, log, tanh and their inverses (dv/solve.py:_axioms)",
]


def load_contracts(prop):
    sys.path.insert(0, os.path.join(VERIF, "contracts"))
    from dv import contract as K

    for p in sorted(glob.glob(os.path.join(VERIF, "contracts", prop.lower() + "_*.py"))):
        name = os.path.basename(p)[:-3]
        spec = importlib.util.spec_from_file_location(name, p)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
    return K.CONTRACTS.get(prop, [])


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def search(K, c, seed, models, n, budget):
    """Concrete executions of the real code: countermodels first, then random inputs."""
    t0 = time.time()
    st = {"ok": 0, "reject": 0, "checked": 0}
    for m in models:
        for s in range(6):
            k, d, rec, np_ = K.run_concrete(c, seed * 1000003 + s, m)
            if k == "fail":
                return {"source": "verifier counterexample", "detail": d, "inputs": rec, "seed": seed * 1000003 + s, "model": jsonable(m)}, st
            if time.time() - t0 > budget:
                break
    for s in range(n):
        if time.time() - t0 > budget:
            break
        k, d, rec, np_ = K.run_concrete(c, seed * 1000003 + s)
        if k == "fail":
            return {"source": "random input", "detail": d, "inputs": rec, "seed": seed * 1000003 + s, "model": None}, st
        st[k] += 1
        st["checked"] += np_
    return None, st


def work(prop, idx, seed, tier, conn):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    try:
        sys.setrecursionlimit(20000)
        from dv import contract as K
        from dv import solve as S

        c = K.CONTRACTS[prop][idx]
        S.STATS.update(queries=0, z3_s=0.0, ring_s=0.0, cvc5_s=0.0)
        if c.opts.get("bounded"):
            r = {"contract": c.name, "obligations": [], "paths": 0, "returned": 0, "status": "bounded", "functions": [], "note": c.opts["bounded"], "wall": 0.0}
        else:
            r = K.run_symbolic(c)
        r["stats"] = dict(S.STATS)
        conn.send(("sym", r))
        models = [o["model"] for o in r["obligations"] if o.get("model")]
        ok = r["status"] == "proved"
        n = (12 if ok else 400) if tier == "quick" else (150 if ok else 3000)
        budget = (10 if ok else 60) if tier == "quick" else (60 if ok else 300)
        if r["status"] == "bounded":
            n, budget = (c.opts.get("trials", 150), 60) if tier == "quick" else (c.opts.get("trials", 150) * 10, 400)
        f, st = search(K, c, seed, models, n, budget)
        r["concrete"] = st
        r["failing_input"] = f
        conn.send(("done", r))
    except MemoryError:
        conn.send(("error", "out of memory"))
    except BaseException:
        conn.send(("error", traceback.format_exc()[-3000:]))
    finally:
        conn.close()


def run_all(prop, n, seed, tier, deadline):
    results = [None] * n
    todo = list(range(n))
    run = {}
    ctx = mp.get_context("fork")
    while todo or run:
        while todo and len(run) < 8:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(prop, i, seed, tier, b))
            p.start()
            b.close()
            run[i] = (p, a, time.time())
        for i, (p, a, t0) in list(run.items()):
            try:
                while a.poll(0):
                    kind, r = a.recv()
                    if kind == "error":
                        results[i] = results[i] or {"contract": None, "obligations": [], "paths": 0, "returned": 0, "status": "error", "functions": [], "note": r, "wall": 0}
                    else:
                        results[i] = r
                        results[i]["complete"] = kind == "done"
            except EOFError:
                pass
            if not p.is_alive():
                p.join()
                try:
                    while a.poll(0):
                        kind, r = a.recv()
                        if kind != "error":
                            results[i] = r
                            results[i]["complete"] = kind == "done"
                except EOFError:
                    pass
                del run[i]
            elif time.time() > deadline:
                p.kill()
                p.join()
                del run[i]
        time.sleep(0.02)
    return results


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        out = json.load(open(p))
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    elif "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="dv-")
    cwd = os.getcwd()
    os.chdir(scratch)
    os.environ["DV_SCRATCH"] = scratch
    sys.path.insert(0, os.environ.get("DV_REPO", "/repo"))
    try:
        cs = load_contracts(prop)
        if not cs:
            print(f"no contracts for {prop}")
            return 2
        import torch

        torch.set_num_threads(1)
        results = run_all(prop, len(cs), seed, tier, t0 + (760 if tier == "quick" else 3 * 3600))
        return report(prop, tier, seed, cs, results, t0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, cs, results, t0):
    known = [k for k in known_findings() if k["property"] == prop and k.get("kind") == "known"]
    violations, undecided, lines = [], [], []
    n_obl = n_dis = 0
    backends = {}
    functions = set()
    solver = {"z3_s": 0.0, "cvc5_s": 0.0, "ring_s": 0.0, "queries": 0}
    per = []
    bounded = []
    concrete_checks = 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for c, r in zip(cs, results):
        if r is None:
            r = {"contract": c.name, "obligations": [], "paths": 0, "returned": 0, "status": "timeout", "functions": [], "note": "killed at the deadline", "wall": 0}
        functions |= set(r["functions"])
        n_obl += len(r["obligations"])
        for o in r["obligations"]:
            if o["status"] == "proved":
                n_dis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        for k in solver:
            solver[k] += r.get("stats", {}).get(k, 0)
        st = r.get("concrete", {})
        concrete_checks += st.get("checked", 0)
        f = r.get("failing_input")
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        per.append({"contract": c.name, "status": r["status"], "obligations": len(r["obligations"]), "paths": r["paths"], "wall_s": round(r.get("wall", 0), 2), "concrete": st, "note": r["note"]})
        vio = None
        if f is not None:
            vio = {"contract": c.name, "obligation": (bad[0]["name"] if bad else f["detail"].split(":")[0]), "failing_input": f, "confirmed": True}
        elif r["status"] == "failed":
            hard = [o for o in bad if o["status"] in ("refuted", "unknown")]
            if hard and baseline.unchanged(r["functions"], os.environ.get("DV_REPO", "/repo")):
                undecided.append((c.name, f"the solvers gave up on '{hard[0]['name']}', which they discharge on this very code with more time"))
            elif hard:
                vio = {"contract": c.name, "obligation": hard[0]["name"], "failing_input": None, "confirmed": False}
            else:
                undecided.append((c.name, "exception on a symbolic path that no concrete execution reproduces: " + bad[0]["name"]))
        elif r["status"] in ("unsupported", "vacuous", "timeout", "error"):
            undecided.append((c.name, f"{r['status']}: {r['note']}"))
        elif r["status"] == "bounded":
            bounded.append(c.name)
        if vio:
            kf = [k for k in known if k["contract"] == c.name and k.get("match", "") in json.dumps(jsonable(vio))]
            if kf:
                lines.append(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
                continue
            h = hashlib.sha1((prop + c.name).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "evidence", "replay", f"{prop}-{h}.json")
            with open(path, "w") as fh:
                json.dump(jsonable({"property": prop, "contract": c.name, "file": c.fn.__code__.co_filename, "failed_obligation": vio["obligation"], "verifier_output": bad,
                                    "failing_input": f, "replay": f"/verif/check {prop} --replay {path}" if f else None}), fh, indent=1)
            violations.append((path, vio))
            tail = "" if vio["confirmed"] else " no-failing-input-found"
            print(f"  contract '{c.name}': obligation '{vio['obligation']}' fails" + (f"; real code: {f['detail'][:300]}" if f else ""))
            lines.append(f"VIOLATION property={prop} replay={path}{tail}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other" if bounded or undecided else "proof",
        "coverage": {
            "obligations": n_obl,
            "discharged": n_dis,
            "checker_cmd": f"/verif/check {prop} --{tier}",
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(functions),
            "backends": backends,
            "solver_seconds": {k: round(v, 2) for k, v in solver.items()},
            "contracts": per,
            "bounded_contracts": bounded,
            "undecided": [f"{a}: {b}" for a, b in undecided],
            "concrete_cross_checks": concrete_checks,
        },
        "assumptions": ASSUMED + [f"bounded, not proved: {b}" for b in bounded] + [f"UNDECIDED, only random concrete executions: {a}" for a, _ in undecided],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if ev["level"] == "other":
        ev["coverage"]["explanation"] = (
            f"{len(cs) - len(bounded) - len(undecided)} of {len(cs)} contracts were discharged deductively; "
            + (f"decided by bounded execution of the real code, not proved: {', '.join(bounded)} ({concrete_checks} checks in total); " if bounded else "")
            + (f"not decided on this tree beyond random concrete executions: {', '.join(a for a, _ in undecided)}" if undecided else "")
        )
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for a, b in undecided:
        print(f"UNDECIDED (bounded concrete check only): {a}: {b[:300]}")
    for l in lines:
        print(l)
    print(f"{prop}: {len(cs)} contracts, {n_dis}/{n_obl} obligations discharged {backends}, {concrete_checks} concrete cross-checks, {time.time()-t0:.1f}s")
    return 1 if violations else 0


def replay(argv):
    prop = argv[0]
    path = argv[argv.index("--replay") + 1]
    data = json.load(open(path))
    sys.path.insert(0, os.environ.get("DV_REPO", "/repo"))
    scratch = tempfile.mkdtemp(prefix="dv-")
    os.chdir(scratch)
    cs = load_contracts(prop)
    from dv import contract as K

    f = data.get("failing_input")
    if not f:
        print("no failing input recorded")
        return 2
    c = [c for c in cs if c.name == data["contract"]][0]
    m = f.get("model")
    if m:
        import ast

        m = {(ast.literal_eval(k) if k.startswith("(") else k): v for k, v in m.items()}
    print(K.run_concrete(c, f["seed"], m)[:3])
    shutil.rmtree(scratch, ignore_errors=True)
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(replay(a) if "--replay" in a else main(a))
