#!/opt/veriftools/pyvenv/bin/python
"""check.py ID: decide one property of /repo's current source.

Every obligation of the property is a pair of functions in spec/: H_x drives
the public API of /repo on symbolic inputs, S_x says what must come out.  Both
are turned into gated value graphs by abstract interpretation of the *source*
(nothing of /repo is imported or executed) and compared by value numbering.
"""
import ast
import json
import multiprocessing as mp
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from obligations import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LIMIT = {"quick": 240, "thorough": 1200}.get(TIER, 240)
BUDGET = {"quick": 160, "thorough": 640}.get(TIER, 160)


def anchors_of(specfile):
    """names the spec imports from the code base"""
    out = []
    for n in ast.parse(open(specfile).read()).body:
        if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] in ("refellips", "plottools_pkg"):
            out += [(n.module, a.name) for a in n.names]
    return out


def missing_anchors(specfile):
    from engine import driver
    prog = driver.make_program(specfile)
    bad = []
    for m, nm in anchors_of(specfile):
        mod = prog.module(m)
        if mod is None or (nm not in mod.defs and prog.module(m + "." + nm) is None):
            bad.append(f"{m}.{nm}")
    return bad


def src(s):
    return f"{os.path.relpath(s[0], REPO)}:{s[2]} ({s[1]})" if s else "?"


def work(specfile, name, q):
    from engine import driver
    from engine.terms import show
    try:
        def go():
            r = driver.check_pair(specfile, "H_" + name, "S_" + name, BUDGET, seed=SEED)
            out = {**r.stats, "obligation": name, "verdict": r.verdict, "components": []}
            for k, v, d in r.detail:
                c = {"component": k, "verdict": v}
                if v == "REFUTED":
                    x, y, where = d[6]
                    c["construct"] = [src(s) for s in where[:6]] or ["one of " + ", ".join(r.stats["functions"][:8])]
                    c["code_computes"] = show(x, 10)[:1500]
                    c["property_requires"] = show(y, 10)[:1500]
                    c["witness"] = {str(a): str(b)[:300] for a, b in list(d[2][0].items())[:40]}
                    c["value_in_code"] = str(d[2][1])[:1200]
                    c["value_required"] = str(d[2][2])[:1200]
                    c["points"] = {"distinguishing": d[3], "evaluated": d[4], "useless": d[5]}
                elif v == "UNDECIDED":
                    c["points"] = {"distinguishing": d[2], "evaluated": d[3], "useless": d[4]}
                    c["why"] = str(d[5])[:400]
                out["components"].append(c)
            return out
        q.send(driver.bigstack(go))
    except BaseException as e:  # an engine limit is never a verdict
        q.send({"obligation": name, "verdict": "UNDECIDED", "components": [], "functions": [], "call_sites": 0,
                "nodes": 0, "unknown": [f"{type(e).__name__}: {e}"[:300]], "seconds": 0})


def run(jobs):
    """one process per obligation, bounded in time"""
    todo = list(jobs)
    live, done = {}, {}
    ncpu = min(8, os.cpu_count() or 4)
    while todo or live:
        while todo and len(live) < ncpu:
            spec, name = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=work, args=(os.path.join(HERE, "spec", spec), name, b))
            p.start()
            b.close()
            live[(spec, name)] = (p, a, time.time())
        for k, (p, a, t0) in list(live.items()):
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = {"why": "worker died"}
            elif not p.is_alive():
                res = {"why": "worker died"}
            elif time.time() - t0 > LIMIT:
                res = {"why": "time limit"}
            if res is None:
                continue
            if p.is_alive():
                p.join(5)
                if p.is_alive():
                    os.kill(p.pid, signal.SIGKILL)
            p.join()
            del live[k]
            if "verdict" not in res:
                res = {"obligation": k[1], "verdict": "UNDECIDED", "components": [], "functions": [], "call_sites": 0,
                       "nodes": 0, "unknown": [res["why"]], "seconds": round(time.time() - t0, 1)}
            res["spec"] = k[0]
            done[k] = res
        time.sleep(0.02)
    return [done[tuple(j)] for j in jobs]


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={pid} "):
                out.append(l[len(f"known: property={pid} "):])
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    prop = PROPS[pid]
    jobs = prop["obligations"]
    specs = sorted({s for s, _ in jobs})
    gone = [g for s in specs for g in missing_anchors(os.path.join(HERE, "spec", s))]
    if gone:
        print(f"ANALYSIS-BROKEN property={pid}: public names not found in the source: {', '.join(sorted(set(gone)))}")
        sys.exit(2)
    res = run(jobs)
    lints = []
    for fn in prop.get("rules", []):
        import importlib
        m, f = fn.split(":")
        lints.append((fn, getattr(importlib.import_module("rules." + m), f)(REPO)))
    bad, und = [], []
    print(f"property {pid}: {prop['title']}")
    for r in res:
        print(f"  {r['verdict']:9} {r['spec']}:{r['obligation']}  functions={len(r['functions'])} call_sites={r['call_sites']}"
              f" nodes={r['nodes']} {r['seconds']}s")
        if r["verdict"] == "UNDECIDED":
            und.append(r)
            for c in r["components"]:
                if c["verdict"] == "UNDECIDED":
                    print(f"      undecided: {c['component']}: {c['points']} {c['why']}")
            if r["unknown"]:
                print(f"      not modelled: {r['unknown'][:3]}")
        if r["verdict"] == "REFUTED":
            bad.append(r)
            for c in r["components"]:
                if c["verdict"] == "REFUTED":
                    print(f"      {c['component']} differs from what the property requires")
                    print(f"        construct: {' <- '.join(c['construct'][:3])}")
                    print(f"        code computes:     {c['code_computes'][:300]}")
                    print(f"        property requires: {c['property_requires'][:300]}")
    nfind = 0
    for fn, (count, findings) in lints:
        print(f"  rule {fn}: {count} sites, {len(findings)} findings")
        for f in findings:
            nfind += 1
            print(f"      {f}")
            bad.append({"obligation": fn, "finding": f})
    proved = sum(r["verdict"] == "PROVED" for r in res)
    funs = sorted({f for r in res for f in r["functions"]})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kn = known(pid)
    new = [b for b in bad if b["obligation"] not in {k.split()[0] for k in kn}]
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "translation_validation",
        "coverage": {
            "programs": len(res),
            "disagreements_checked": sum(1 for r in res for c in r["components"]),
            "rule": prop["rule"],
            "obligations": len(res) + sum(c for _, (c, _) in lints),
            "discharged": proved + sum(c - len(f) for _, (c, f) in lints),
            "undecided": [r["obligation"] for r in und],
            "functions_analysed": funs,
            "call_sites_resolved": sum(r["call_sites"] for r in res),
            "value_graph_nodes": sum(r["nodes"] for r in res),
            "samples": [{k: r[k] for k in ("spec", "obligation", "verdict", "functions", "call_sites", "nodes", "seconds")} for r in res],
            "rules": [{"rule": fn, "sites": c, "findings": [str(f) for f in fs]} for fn, (c, fs) in lints],
        },
        "assumptions": prop.get("assumes", []) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kn:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if new:
        rp = os.path.join(HERE, "evidence", "replay_" + pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "replay": f"cd {HERE} && ./check.py {pid}", "violations": new}, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if not funs and not any(c for _, (c, _) in lints):
        print(f"ANALYSIS-BROKEN property={pid}: nothing could be analysed")
        sys.exit(2)
    print(f"property {pid}: {proved}/{len(res)} obligations proved, {len(und)} undecided, {len(funs)} functions, {ev['wall_s']} s")
    sys.exit(0)


COMMON = [
    "the models of numpy/scipy/pandas/refnx operations in engine/lib.py and engine/models/ describe those libraries",
    "floating point is treated as real/complex arithmetic; rounding is not modelled",
    "value numbers live in a prime field of 126 bits; a wrong PROVED needs a collision",
]

if __name__ == "__main__":
    main()
