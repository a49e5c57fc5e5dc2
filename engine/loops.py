"""Loop summaries.

The body is analysed once per round with every slot it changes replaced by a
carried symbol, until no new slot changes (a fixpoint over the set of carried
slots).  Recognised recurrences get a closed form (induction variables,
appends, guarded appends, sums, last values, stores at the running index,
dictionaries); everything else stays an explicit `loop` node, which value
numbering compares by partition refinement.
"""
from .terms import *
from . import norm
from .norm import lst, concat, mkmap, mksum, subst, setitem, getitem, arr_len, rank, MU_INIT

MAXROUND = 8
UNB = mk("app", "unbounded", (), ())


def solve(I, target, dom, elem, body, fr):
    from .interp import Dead, Rebind, St, Unsupported
    d = as_int(dom)
    if d is not None and d <= 0:
        return
    entry = I.st
    base = entry.pc
    idx = mk("idx", I.uid(), 0)
    norm.IDXDOM[idx.id] = dom
    carried = {}           # slot -> mu
    split = {}             # cell slot -> {key: mu} for dictionaries
    save_cur = I.curidx
    ncell0 = I.n
    objs0 = {k[1] for k in entry.h if k[0] == "a"}

    def run():
        st = St(dict(entry.h), TRUE)
        for k, m in carried.items():
            st.h[k] = mk("truthy", m) if k[0] == "p" else m
        for k, keys in split.items():
            c = entry.h[k]
            st.h[k] = mk("dict", *[(kk, keys.get(kk, v)) for kk, v in c.args])
        I.st = st
        ne, nr = len(I.exits), len(fr.rets)
        brks, conts = [], []
        I.loops.append((brks, conts))
        I.loopentry.append((entry, fr.fid))
        I.curidx = idx
        ends = []
        try:
            try:
                if target is not None:
                    I.bindelem(target, I.box(elem(idx)), fr)
                else:
                    elem(idx)
                body()
                ends.append((I.st.pc, I.st, NONE))
            except Dead:
                pass
        except Rebind:
            del I.exits[ne:]
            del fr.rets[nr:]
            return None
        finally:
            I.loops.pop()
            I.loopentry.pop()
            I.curidx = save_cur
        raises = I.exits[ne:]
        rets = fr.rets[nr:]
        del I.exits[ne:]
        del fr.rets[nr:]
        return ends + [(p, s, NONE) for p, s in conts], brks, raises, rets

    for rnd in range(MAXROUND):
        r = run()
        if r is None:
            continue
        ends, brks, raises, rets = r
        new = False
        outs = [s for _, s, _ in ends] + [s for _, s in brks] + [s for _, s, _, _ in raises] + [s for _, s, _ in rets]
        for s in outs:
            for k, v in s.h.items():
                if k in carried or k in split and v is None:
                    continue
                old = entry.h.get(k)
                if k[0] == "F" and old is None and k not in carried:
                    old = sym("F." + k[1], "map")
                if old is None and k[0] == "a" and k[1] in objs0 and k not in entry.h:
                    # an attribute the loop creates on an object that was there before
                    old = entry.h[k] = I.absent(k)
                    p = ("p",) + k[1:]
                    if p not in entry.h:
                        entry.h[p] = FALSE
                        carried[p] = newmu(I, idx, p, FALSE)
                if old is None:
                    continue
                if k in split:
                    cur = mk("dict", *[(kk, split[k].get(kk, w)) for kk, w in old.args])
                    if v is cur:
                        continue
                    if v.op == "dict" and [a for a, _ in v.args] == [a for a, _ in old.args]:
                        for (kk, w), (_, w0) in zip(v.args, cur.args):
                            if w is not w0 and kk not in split[k]:
                                m = newmu(I, idx, k, old_of(old, kk))
                                split[k][kk] = m
                                new = True
                        continue
                    del split[k]
                    carried[k] = newmu(I, idx, k, old)
                    new = True
                    continue
                if v is old:
                    continue
                if k[0] == "c" and old.op == "dict" and old.args and v.op == "dict" and \
                        [a for a, _ in v.args] == [a for a, _ in old.args]:
                    split[k] = {}
                    for (kk, w), (_, w0) in zip(v.args, old.args):
                        if w is not w0:
                            split[k][kk] = newmu(I, idx, k, w0)
                    new = True
                    continue
                carried[k] = m = newmu(I, idx, k, old)
                if old.op == "unbound":
                    r = rank_in(s, v)
                    if r is not None:
                        norm.MU_RANK[m.id] = r
                new = True
        if not new:
            break
    else:
        raise Unsupported("loop state does not stabilise")

    if not ends and not brks and not raises and not rets:
        # body never completes: only reachable when the domain is empty
        I.st = entry
        I.st.pc = and_(base, mk("le", dom, ZERO))
        return

    slots = list(carried.items())
    sub = {}
    for k, keys in split.items():
        for kk, m in keys.items():
            slots.append(((k, kk), m))

    def inits(k):
        if isinstance(k[0], tuple):
            return old_of(entry.h[k[0]], k[1])
        v = entry.h.get(k)
        return v if v is not None else sym("F." + k[1], "map")

    def valof(s, k, m):
        if isinstance(k[0], tuple):
            c = s.h.get(k[0])
            return old_of(c, k[1]) if c is not None and c.op == "dict" else top("dict")
        return s.h.get(k, UNB if False else m)

    def fz(v, s):
        return freeze_local(I, v, s, entry, ncell0)

    if ends:
        if len(ends) > 1:
            est, _ = I.merge_exits(ends, TRUE)
        else:
            est = ends[0][1]
        bodies = {k: fz(valof(est, k, m), est) for k, m in slots}
        # variables first defined inside the loop
        fresh = {}
        for k, v in est.h.items():
            if k not in entry.h and k[0] in ("v", "a") and k not in carried and k[0] == "v" and k[1] == fr.fid:
                fresh[k] = fz(v, est)
    else:
        bodies = {k: m for k, m in slots}
        fresh = {}

    stops = [(p, s, 1, NONE) for p, s in brks] + [(p, s, 2, v) for p, s, v in rets] + \
            [(p, s, 3 + i, NONE) for i, (p, s, c, info) in enumerate(raises)]

    def plain(start):
        vals, atidx = closed(I, idx, dom, [k for k, _ in slots], dict(slots), {k: inits(k) for k, _ in slots}, bodies)
        I.st = start
        for k, m in slots:
            put(I, k, vals[k])
        last = sub_(dom, ONE)
        musub = {m.id: atidx.get(k) for k, m in slots}
        for k, v in fresh.items():
            fm = free_mu(v)
            ok = True
            mm = {idx.id: last}
            for m in fm:
                if m is idx:
                    continue
                if m.id in musub:
                    if musub[m.id] is None:
                        ok = False
                    else:
                        mm[m.id] = subst(musub[m.id], {idx.id: last})
            if ok:
                w = subst(v, mm)
            else:
                w = top("value of the last iteration")
            if d is not None and d > 0:
                I.st.h[k] = w
            else:
                I.st.h[k] = ite(mk("lt", ZERO, dom), w, mk("unbound"))


    if not stops:
        plain(entry)
        return

    inv = I.orsimp([p for p, _, _, _ in stops])
    if ends and dom is not UNB and not (free_mu(inv) & ({idx} | set(dict(slots).values()))):
        # whether a round stops does not depend on the round: the first one does, or none
        def first():
            save = I.curidx
            I.curidx = ZERO
            try:
                I.unrolled(target, [I.box(elem(ZERO))], body, fr)
            finally:
                I.curidx = save
        I.st = entry
        some = TRUE if dom.op == "sym" and dom.args[1] == "posint" else mk("lt", ZERO, dom)
        I.branch(and_(some, inv), first, lambda: plain(I.st))
        return

    # loop with early exits
    kslot = ("kind",)
    mus = [m for _, m in slots]
    ks = [k for k, _ in slots]
    conds = [p for p, _, _, _ in stops]
    # induction variables still get their closed form
    ind = induction(ks, dict(slots), {k: inits(k) for k in ks}, bodies, idx)
    brk = I.orsimp(conds)
    brk = subst(brk, {m.id: ind[k] for k, m in slots if k in ind})
    def chain(f):
        out = f(stops[-1])
        for s in reversed(stops[:-1]):
            out = ite(s[0], f(s), out)
        return out
    # lists that every completed round appends to and that nothing else reads
    isub = {dict(slots)[k].id: ind[k] for k in ind}
    grown = {}
    allm = set(dict(slots).values())
    for k, m in slots:
        if k in ind:
            continue
        b = subst(bodies[k], isub)
        if not (b.op == "concat" and b.args[0] is m and not any(free_mu(x) & allm for x in b.args[1:])):
            continue
        if any(valof(s, k, m) is not m for _, s, _, _ in stops):
            continue
        if any(m in free_mu(bodies[j]) for j in ks if j != k) or m in free_mu(brk) or \
                any(m in free_mu(fz(valof(s, j, dict(slots)[j]), s)) for _, s, _, _ in stops for j in ks if j != k) or \
                any(m in free_mu(fz(v, s)) for _, s, _, v in stops):
            continue
        grown[k] = concat(*b.args[1:])
    kmu = mk("mu", I.uid(), "kind", "stop")
    MU_INIT[kmu.id] = ZERO
    rmu = mk("mu", I.uid(), "ret", "retval")
    rest = [k for k in ks if k not in ind and k not in grown]
    allk = rest + [("kind",), ("ret",)]
    allmu = tuple([dict(slots)[k] for k in rest] + [kmu, rmu])
    cnt_needed = bool(ind)
    init_t = [inits(k) for k in rest] + [ZERO, NONE]
    body_t = [bodies[k] for k in rest] + [ZERO, NONE]
    brk_t = [chain(lambda s, k=k: fz(valof(s[1], k, dict(slots)[k]), s[1])) for k in rest]
    brk_t += [chain(lambda s: num(s[2])), chain(lambda s: fz(s[3], s[1]))]
    # position at which the loop stopped, for the induction variables
    cmu = mk("mu", I.uid(), "count", "count")
    MU_INIT[cmu.id] = ZERO
    allk.append(("count",))
    allmu += (cmu,)
    init_t.append(ZERO)
    body_t.append(add(idx, ONE))
    brk_t.append(idx)
    body_t = [subst(b, isub) for b in body_t]
    brk_t = [subst(b, isub) for b in brk_t]
    L = mk("loop", idx, dom, allmu, tuple(init_t), tuple(body_t), brk, tuple(brk_t))
    lv = {k: mk("loopval", L, i) for i, k in enumerate(allk)}
    kind = lv[("kind",)]
    vals = {}
    for k in ks:
        if k in ind:
            # at a break the update of this round may not have happened; use the break value
            normal = subst(ind[k], {idx.id: lv[("count",)]})
            bv = chain(lambda s, k=k: fz(valof(s[1], k, dict(slots)[k]), s[1]))
            bv = subst(subst(bv, isub), {idx.id: lv[("count",)]})
            if bv is subst(ind[k], {idx.id: lv[("count",)]}):
                vals[k] = normal
            elif not (free_mu(bv) - free_mu(normal)):
                vals[k] = ite(mk("eq", kind, ZERO), normal, bv)
            else:
                vals[k] = top("induction variable at break")
        elif k in grown:
            g, n = grown[k], lv[("count",)]
            one_ = g.op == "list" and len(g.args) == 1
            vals[k] = concat(inits(k), mkmap(idx, n, g.args[0]) if one_ else mk("flat", idx, n, g))
        else:
            vals[k] = lv[k]

    def outstate(kd):
        s = entry.copy()
        I.st = s
        for k in ks:
            put(I, k, vals[k])
        s = I.st
        s.pc = and_(base, mk("eq", kind, num(kd)))
        return s

    for (p, s, kd, v) in stops:
        if kd == 2:
            st = outstate(2)
            fr.rets.append((st.pc, st, lv[("ret",)]))
            break
    for i, (p, s, c, info) in enumerate(raises):
        st = outstate(3 + i)
        I.exits.append((st.pc, st, c, info))
    st0 = outstate(0)
    if dom is UNB:
        if not brks:
            I.st = st0
            raise Dead()
        st0.pc = base if not (rets or raises) else and_(base, *[not_(mk("eq", kind, num(k))) for k in sorted({x[2] for x in stops if x[2] > 1})])
        I.st = st0
        # names first bound inside the loop keep their last value
        _fresh_on_break(I, fr, entry, brks, lv, fz)
        return
    st0.pc = and_(base, *[not_(mk("eq", kind, num(k))) for k in sorted({x[2] for x in stops if x[2] > 1})])
    I.st = st0
    _fresh_on_break(I, fr, entry, brks, lv, fz)


def _fresh_on_break(I, fr, entry, brks, lv, fz):
    for p, s in brks:
        for k, v in s.h.items():
            if k not in entry.h and k[0] == "v" and k[1] == fr.fid and k not in I.st.h:
                I.st.h[k] = top("name bound in a loop with break")


def sub_(a, b):
    return add(a, neg(b))


def old_of(c, kk):
    for a, v in c.args:
        if a is kk:
            return v
    return top("missing key")


def rank_in(s, v):
    if v.op == "ref":
        v = s.h.get(("c", v.args[0]))
        if v is None:
            return None
    if v.op == "ite":
        p, q = rank_in(s, v.args[1]), rank_in(s, v.args[2])
        if v.args[1].op == "unbound" or p == q:
            return q
        return p if v.args[2].op == "unbound" else None
    return rank(v)


def newmu(I, idx, k, init):
    m = mk("mu", I.uid(), idx.id, str(k[-1]) if not isinstance(k[-1], T) else show(k[-1]))
    MU_INIT[m.id] = init
    return m


def put(I, k, v):
    if isinstance(k[0], tuple):
        c = I.st.h[k[0]]
        I.st.h[k[0]] = mk("dict", *[(a, v if a is k[1] else w) for a, w in c.args])
    else:
        I.st.h[k] = v if k[0] != "p" or is_boolish(v) else mk("truthy", v)


def freeze_local(I, v, st, entry, ncell0):
    """resolve references to cells and objects created inside the body"""
    def local(x):
        if x.op == "ref":
            return x.args[0] > ncell0
        if x.op == "obj":
            return x.args[0] > ncell0
        return False

    if not any(local(x) for x in subterms(v)):
        return v
    save = I.st
    I.st = st

    def f(x):
        if local(x):
            if x.op == "ref":
                return rewrite(I.d(x), f)
            return rec(x)
        return None

    def rec(o):
        oid = o.args[0]
        cls = I.objcls[oid]
        cname = cls if not hasattr(cls, "name") else f"{cls.module.name}.{cls.name}"
        at = sorted((k[2], w) for k, w in I.st.h.items() if k[0] == "a" and k[1] == oid)
        return mk("record", cname, tuple((a, rewrite(w, f)) for a, w in at if not is_self(w, o)))

    def is_self(w, o):
        return any(x is o for x in subterms(w))

    try:
        return rewrite(v, f)
    finally:
        I.st = save


def induction(ks, mus, init, bodies, idx):
    out = {}
    for k in ks:
        b, m = bodies[k], mus[k]
        if b.op == "add":
            for x, y in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if x is m and not free_mu(y) and rank(init[k]) == 0 and (is_num(y)):
                    out[k] = add(init[k], mul(idx, y))
    return out


def closed(I, idx, dom, ks, mus, init, bodies):
    """final value of every slot; plus, where known, value at the start of round idx"""
    ind = induction(ks, mus, init, bodies, idx)
    sm = {mus[k].id: ind[k] for k in ind}
    if sm:
        bodies = {k: (b if k in ind else subst(b, sm)) for k, b in bodies.items()}
    vals, atidx = {}, dict(ind)
    mset = {m: k for k, m in mus.items()}
    for k in ind:
        vals[k] = subst(ind[k], {idx.id: dom})
    progress = True
    todo = [k for k in ks if k not in vals]
    while progress:
        progress = False
        for k in list(todo):
            b, m = bodies[k], mus[k]
            others = {x for x in free_mu(b) if x in mset and x is not m}
            if others:
                continue
            r = one(I, idx, dom, m, init[k], b)
            if r is None:
                continue
            vals[k] = r[0]
            todo.remove(k)
            progress = True
            if r[1] is not None:
                atidx[k] = r[1]
                for j in todo:
                    bodies[j] = subst(bodies[j], {m.id: r[1]})
    if todo:
        ms = tuple(mus[k] for k in todo)
        # slots that others still read but that already have a closed form
        need = set()
        for k in todo:
            for x in free_mu(bodies[k]):
                if x in mset and mset[x] not in todo:
                    need.add(mset[x])
        allk = todo + sorted(need, key=str)
        L = mk("loop", idx, dom, tuple(mus[k] for k in allk), tuple(init[k] for k in allk),
               tuple(bodies[k] for k in allk), FALSE, ())
        for i, k in enumerate(todo):
            vals[k] = mk("loopval", L, i)
    return vals, atidx


def appended(b, m):
    """r with b = m + r (lists), or None"""
    if b is m:
        return lst()
    if b.op == "concat" and b.args[0] is m:
        return concat(*b.args[1:])
    if b.op == "ite":
        x, y = appended(b.args[1], m), appended(b.args[2], m)
        if x is not None and y is not None:
            return ite(b.args[0], norm.assume(x, b.args[0]), norm.assume(y, not_(b.args[0])))
    return None


def one(I, idx, dom, m, init, b):
    """closed form of the recurrence m := b (b mentions no other carried slot)"""
    fm = free_mu(b)
    if m not in fm:
        # overwritten every round
        last = subst(b, {idx.id: sub_(dom, ONE)})
        prev = None
        d = as_int(dom)
        if idx not in fm:
            return ite(mk("lt", ZERO, dom), b, init), ite(mk("lt", ZERO, idx), b, init)
        return ite(mk("lt", ZERO, dom), last, init), None
    # appends
    if b.op == "concat" and b.args[0] is m and all(m not in free_mu(x) for x in b.args[1:]):
        rest = concat(*b.args[1:])
        if rest.op == "list" and len(rest.args) == 1:
            return concat(init, mkmap(idx, dom, rest.args[0])), None
        return concat(init, mk("flat", idx, dom, rest)), None
    if b.op == "ite":
        c, x, y = b.args
        if m not in free_mu(c):
            for p, q, g in ((x, y, c), (y, x, not_(c))):
                if q is m and p.op == "concat" and p.args[0] is m and len(p.args) == 2 and p.args[1].op == "list" \
                        and len(p.args[1].args) == 1 and m not in free_mu(p.args[1]):
                    return concat(init, mkmap(idx, dom, norm.assume(p.args[1].args[0], g), g)), None
                if q is m and p.op == "setitem" and p.args[0] is m and init.op == "dict" and not init.args \
                        and m not in free_mu(p.args[1]) and m not in free_mu(p.args[2]):
                    return mk("dictmap", idx, dom, p.args[1], p.args[2], g), None
                if q is m and p.op == "add" and p.args[0] is m and m not in free_mu(p.args[1]):
                    return add(init, mksum(idx, dom, p.args[1], g)), None
    r = appended(b, m)
    if r is not None and m not in free_mu(r):
        return concat(init, mk("flat", idx, dom, r)), None
    if b.op == "add":
        for x, y in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
            if x is m and m not in free_mu(y):
                return add(init, mksum(idx, dom, y)), None
    if b.op == "setitem" and b.args[0] is m:
        key, v = b.args[1], b.args[2]
        if m not in free_mu(key) and m not in free_mu(v):
            if init.op == "dict" and not init.args:
                return mk("dictmap", idx, dom, key, v, TRUE), None
            if key is idx and arr_len(init) is dom:
                return mkmap(idx, dom, v), None
            if norm.is_valmap(init):
                return norm.storeall(init, mkmap(idx, dom, key), mkmap(idx, dom, v)), None
    return None
