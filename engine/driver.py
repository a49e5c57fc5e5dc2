"""Analyse a (harness, reference) pair of functions and compare what they denote."""
import ast
import os
import sys
import threading
import time

from .terms import *
from . import norm, evalnum
from .interp import Program, Interp, St, Dead, Frame, Unsupported, AnchorMissing, UNBOUND
from .lib import Lib
from . import models
from . import vn

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make_program(specfile):
    files = dict(models.FILES)
    files["spec_mod"] = specfile
    d = os.path.dirname(os.path.abspath(specfile))
    for f in os.listdir(d):
        if f.startswith("ref_") and f.endswith(".py"):
            files[f[:-3]] = os.path.join(d, f)
    return Program({"refellips": os.path.join(REPO, "refellips"), "plottools_pkg": os.path.join(REPO, "tools")}, files)


def parse_kind(name, ann):
    """annotation "kind[:len[,cols]][@range]" -> kind"""
    rg = None
    for table in (evalnum.ANYLEN, evalnum.STRPOOL, evalnum.RANGE, norm.LENGRP):
        table.pop(name, None)
    if "@" in ann:
        ann, rg = ann.split("@")
    ln = None
    if ":" in ann:
        ann, ln = ann.split(":")
    if ln:
        evalnum.ANYLEN[name] = tuple(int(x) if x.isdigit() else x for x in ln.split(","))
        if all(x.isdigit() or x[0].isupper() for x in ln.split(",")) and ann.endswith(("arr", "arr2")):
            # a capital letter is a precondition: these arrays have that common length
            norm.LENGRP[name] = tuple(num(int(x)) if x.isdigit() else sym("#" + x, "int") for x in ln.split(","))
    if rg:
        r = rg.split(",")
        if ann in ("str", "path", "dict", "file", "file_pos"):
            evalnum.STRPOOL[name] = r
        else:
            evalnum.RANGE[name] = r if len(r) > 1 else r[0]
    return ann


class Outcome:
    def __init__(self):
        self.term = None
        self.exits = []
        self.I = None


class CI(Interp):
    pass


def analyse(prog, fname, argprefix=""):
    lib = Lib(models.MODELS)
    I = Interp(prog, lib)
    mod = prog.module("spec_mod")
    if fname not in mod.defs:
        raise AnchorMissing(fname)
    node = mod.defs[fname]
    f = I.mkfunc(node, mod, None, None, fname)
    args = []
    inputs = []
    for a in node.args.args:
        ann = a.annotation.value if a.annotation is not None else "real"
        kind = parse_kind(a.arg, ann)
        v = lib.fresh(I, a.arg, kind)
        args.append(v)
        inputs.append((a.arg, v))
    exits = []
    try:
        v = I.call_func(f, args, {})
        exits.append((I.st.pc, I.st, "return", v))
    except Dead:
        pass
    for pc, st, cls, info in I.exits:
        exits.append((pc, st, "raise " + cls, NONE))
    if not exits:
        raise Unsupported("no exit")
    # one term: tag, value, final contents of the inputs, parameter maps, effects
    fs = sorted({k[1] for _, st, _, _ in exits for k in st.h if k[0] == "F"})
    gs = sorted({(show(k[1]), k[2], k) for _, st, _, _ in exits for k in st.h if k[0] == "g"}, key=lambda x: x[:2])
    out = None
    parts = []
    for pc, st, tag, val in exits:
        I.st = st
        comp = {"exit": const(tag), "value": I.freeze(val, st)}
        for n, v in inputs:
            if v.op == "ref":
                comp["input " + n] = I.freeze(v, st)
            elif v.op == "obj":
                comp["input " + n] = I.freeze(v, st)
        for n in fs:
            comp["attribute map ." + n] = I.freeze(st.h.get(("F", n)) or sym("F." + n, "map"), st)
        for s, n, k in gs:
            comp[f"module state {s}.{n}"] = I.freeze(st.h.get(k) or mk("const", "unset"), st)
        comp["effects"] = I.freeze(st.h.get(("e", "log")) or norm.lst(), st)
        parts.append((pc, comp))
    o = Outcome()
    o.exits = [(pc, c) for pc, c in parts]
    o.I = I
    o.fs = fs
    return o


def merged(parts, key, dflt):
    pcs = parts
    out = pcs[-1][1].get(key, dflt)
    for pc, comp in reversed(pcs[:-1]):
        out = ite(pc, comp.get(key, dflt), out)
    return out


def default_of(key):
    if key.startswith("attribute map ."):
        return sym("F." + key[len("attribute map ."):], "map")
    if key.startswith("module state"):
        return const("unset")
    if key == "effects":
        return norm.lst()
    return NONE


def unknown_in(t):
    for x in subterms(t):
        if x.op == "top":
            return "⊤ " + str(x.args[0])
        if x.op == "app" and str(x.args[0]).startswith("?"):
            return str(x.args[0])
        if x.op == "unbound":
            return "unbound"
    return None


class Result:
    def __init__(self, name, verdict, detail, stats):
        self.name, self.verdict, self.detail, self.stats = name, verdict, detail, stats


def order_return_first(parts):
    # exceptional exits are the special cases: last (default) is the normal return
    raises = [p for p in parts if p[1]["exit"] is not const("return")]
    rets = [p for p in parts if p[1]["exit"] is const("return")]
    return raises + rets


def check_pair(specfile, hname, sname, budget=160, prog=None, seed=1):
    t0 = time.time()
    prog = prog or make_program(specfile)
    h = analyse(prog, hname)
    s = analyse(prog, sname)
    hp, sp = order_return_first(h.exits), order_return_first(s.exits)
    keys = []
    for p in (hp, sp):
        for _, c in p:
            for k in c:
                if k not in keys:
                    keys.append(k)
    comps = []
    verdict = "PROVED"
    detail = []
    stats = {"functions": sorted(x for x in h.I.visited if x.startswith("refellips") or x.startswith("plottools")),
             "call_sites": h.I.sites, "nodes": 0, "components": len(keys), "unknown": sorted(h.I.unknown)[:10]}
    for k in keys:
        d = default_of(k)
        a, b = merged(hp, k, d), merged(sp, k, d)
        stats["nodes"] += sum(1 for _ in subterms(a))
        if a is b:
            comps.append((k, "PROVED", "identical"))
            continue
        v, why = vn.congruent(a, b)
        if v is True:
            comps.append((k, "PROVED", "congruent"))
            continue
        hits, ok, bad, wit, whyd = evalnum.distinguish(a, b, budget, seed)
        nun = sum(n for w, n in whyd.items() if w.startswith("Unknown"))
        if hits >= 2 and 3 * nun <= ok and not any(u.startswith(("library call", "method", "call of", "decorator")) for u in h.I.unknown):
            comps.append((k, "REFUTED", (a, b, wit[:3], hits, ok, bad, evalnum.blame(a, b, wit[3]))))
        else:
            comps.append((k, "UNDECIDED", (a, b, hits, ok, bad, whyd, why)))
    vs = [c[1] for c in comps]
    verdict = "REFUTED" if "REFUTED" in vs else ("UNDECIDED" if "UNDECIDED" in vs else "PROVED")
    stats["seconds"] = round(time.time() - t0, 2)
    return Result(hname, verdict, comps, stats)


def bigstack(fn, *a):
    sys.setrecursionlimit(200000)
    threading.stack_size(1024 * 1024 * 1024)
    box = {}

    def run():
        try:
            box["r"] = fn(*a)
        except BaseException as e:
            box["e"] = e
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if "e" in box:
        raise box["e"]
    return box["r"]
