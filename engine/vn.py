"""Value numbering of gated value graphs.

Each node gets a number in GF(P): ring operations are interpreted (so the
numbering is congruence modulo the commutative-field axioms, with i*i = -1),
everything else is an injective hash of its argument numbers, with a few
library identities (even/odd functions, log/exp homomorphism, sqrt squares).
This is global value numbering by random interpretation (Gulwani & Necula,
POPL 2004); the gates (phi predicates) are handled as a decision-tree domain:
two graphs are congruent when they get the same number under every consistent
valuation of the gates.  Loop-carried nodes are numbered by partition
refinement (Alpern, Wegman & Zadeck, POPL 1988).
"""
import hashlib
import random
from fractions import Fraction

from .terms import *
from . import norm

P = None


def _is_prime(n):
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _setup():
    global P, I
    p = 2 ** 126 - 3
    while not (p % 4 == 1 and _is_prime(p)):
        p -= 2
    P = p
    g = 2
    while pow(g, (P - 1) // 2, P) != P - 1:
        g += 1
    I = pow(g, (P - 1) // 4, P)


_setup()
HALF = pow(2, P - 2, P)


def H(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=24).digest()
    return int.from_bytes(h, "big") % P


def inv(x):
    return pow(x, P - 2, P) if x else H("inv0")


def frac(f):
    return f.numerator % P * inv(f.denominator % P) % P


PI = H("pi")
K = [1]
for _k in (inv(180) * PI % P, 2, 1000, 10, 60):
    K += [_k, inv(_k)]

EVEN = {"cos", "abs"}
ODD = {"sin", "tan", "arctan", "arcsin"}
COMM = {"minimum", "maximum", "logical_and", "logical_or", "allclose", "hypot"}


NUMV, CONSTV = {}, {}


class NeedGate(Exception):
    def __init__(self, key, values, desc):
        self.key, self.values, self.desc = key, values, desc


class Infeasible(Exception):
    pass


class TooBig(Exception):
    pass


_CLOSED = {}


def closed(t):
    r = _CLOSED.get(t.id)
    if r is None:
        r = _CLOSED[t.id] = not free_mu(t)
    return r


_GATED = {}


def has_gate(t):
    r = _GATED.get(t.id)
    if r is None:
        r = _GATED[t.id] = any(x.op in ("ite", "where", "lt", "le", "eq", "truthy", "is", "isinstance", "in") for x in subterms(t))
    return r


class Ev:
    """evaluator under one partial gate valuation"""

    def __init__(self, gates, over):
        self.gates = gates          # key -> value
        self.over = over            # vn -> vn (equalities assumed by gates)
        self.memo = {}
        self.mu = {}
        self.mumemo = {}
        self.steps = 0

    # -- gates
    def gate(self, key, values, desc):
        if key in self.gates:
            return self.gates[key]
        raise NeedGate(key, values, desc)

    def sign(self, d, desc):
        """-1, 0, 1 for the sign of the real number denoted by d"""
        if d == 0:
            return 0
        for k in K:
            e = d * k % P
            if ("sign", e) in self.gates:
                return self.gates[("sign", e)]
            e = (P - e) % P
            if ("sign", e) in self.gates:
                return -self.gates[("sign", e)]
        # x >= 0 makes x + c positive, x <= 0 makes x - c negative
        for (kind, *key), s in self.gates.items():
            if kind != "sign":
                continue
            for u, r in ((key[0], s), (P - key[0], -s)):
                c = (d - u) % P
                if c < 1 << 24 and r >= 0:
                    return 1
                if P - c < 1 << 24 and r <= 0:
                    return -1
        raise NeedGate(("sign", d), (-1, 0, 1), desc)

    def truth(self, t):
        op = t.op
        if op == "const":
            v = t.args[0]
            return bool(v) if not isinstance(v, tuple) else True
        if op == "not":
            return not self.truth(t.args[0])
        if op == "and":
            for a in t.args:
                if not self.truth(a):
                    return False
            return True
        if op == "ite" or op == "where":
            return self.truth(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if op in ("lt", "le"):
            a, b = t.args
            if is_num(a) and is_num(b):
                return cval(a) < cval(b) if op == "lt" else cval(a) <= cval(b)
            va, vb = self.ev(a), self.ev(b)
            if va in NUMV and vb in NUMV:
                x, y = NUMV[va], NUMV[vb]
                return x < y if op == "lt" else x <= y
            d = (va - vb) % P
            s = self.sign(d, (t,))
            nn = self._nonneg(a, b)
            if nn is not None and s == -nn:
                raise Infeasible()
            return s < 0 if op == "lt" else s <= 0
        if op == "eq":
            a, b = t.args
            if is_const(b) and not is_const(a):
                a, b = b, a
            va, vb = self.ev(a), self.ev(b)
            if va == vb:
                return True
            if is_const(a) and is_const(b):
                return False
            if va in NUMV and vb in NUMV:
                return False
            if vb in CONSTV and va in CONSTV:
                return False
            if is_const(a) and not is_num(a):
                return self._enum(vb, va, t)
            s = self.sign((va - vb) % P, (t,))
            nn = self._nonneg(a, b)
            if nn is not None and s == -nn:
                raise Infeasible()
            return s == 0
        if op == "is":
            a, b = t.args
            if is_const(b) and not is_const(a):
                a, b = b, a
            va, vb = self.ev(a), self.ev(b)
            if va == vb:
                return True
            if is_const(a) and is_const(b):
                return False
            if vb in CONSTV and va in CONSTV:
                return False
            if is_const(a):
                return self._enum(vb, va, t)
            return self.gate(("is", tuple(sorted((va, vb)))), (True, False), (t,))
        if op == "truthy":
            x = t.args[0]
            if x.op == "ite" or x.op == "where":
                return self.truth(mk("truthy", x.args[1] if self.truth(x.args[0]) else x.args[2]))
            if is_const(x):
                v = x.args[0]
                return bool(v) if not isinstance(v, tuple) else True
            if x.op in ("lt", "le", "eq", "is", "not", "and", "truthy", "isinstance", "exc"):
                return self.truth(x)
            if x.op == "list":
                return bool(x.args)
            if x.op == "app" and x.args[0] == "len":
                s = self.sign(self.ev(x), (t,))
                if s < 0:
                    raise Infeasible()
                return s != 0
            if x.op in ("add", "mul", "div", "neg"):
                return self.sign(self.ev(x), (t,)) != 0
            v = self.ev(x)
            if ("enum", v) in self.gates and self.gates[("enum", v)] == H("const", None):
                return False
            return self.gate(("truthy", v), (True, False), (t,))
        if op == "isinstance" and len(t.args) == 2:
            v = self.ev(t.args[0])
            if ("enum", v) in self.gates and self.gates[("enum", v)] == H("const", None):
                return False
            return self.gate(("isinstance", v, t.args[1]), (True, False), (t,))
        if op == "app" and t.args[0] == "logical_and":
            return all(self.truth(a) for a in t.args[1])
        if op == "app" and t.args[0] == "logical_or":
            return any(self.truth(a) for a in t.args[1])
        if op == "app" and t.args[0] == "logical_not":
            return not self.truth(t.args[1][0])
        return self.gate(("b", self.ev(t)), (True, False), (t,))

    def _nonneg(self, a, b):
        """+1 if a-b is known >=0, -1 if known <=0"""
        def ln(x):
            return x.op == "app" and x.args[0] in ("len", "abs", "count") or x.op == "sym" and x.args[0].startswith("#")
        if ln(a) and is_num(b) and cval(b) == 0:
            return 1
        if ln(b) and is_num(a) and cval(a) == 0:
            return -1
        return None

    def _enum(self, subj, val, t):
        """subject equals this constant?  one many-valued gate per subject"""
        key = ("enum", subj)
        if key in self.gates:
            g = self.gates[key]
            if isinstance(g, tuple):       # ('other', excluded...)
                if val in g:
                    return False
                raise NeedGate(key, (val, g + (val,)), (t,))
            return g == val
        raise NeedGate(key, (val, ("other", val)), (t,))

    # -- values
    def ev(self, t):
        fm = free_mu(t)
        memo = self.mumemo if fm else self.memo
        r = memo.get(t.id)
        if r is None:
            self.steps += 1
            if self.steps > 400000:
                raise TooBig()
            r = self._ev(t)
            r = self.over.get(r, r)
            memo[t.id] = r
        return r

    def evx(self, a):
        if isinstance(a, T):
            return self.ev(a)
        if isinstance(a, tuple):
            return tuple(self.evx(x) for x in a)
        return ("py", repr(a))

    def evn(self, a):
        v = self.evx(a)
        return v if isinstance(v, int) else H("tuple", v)

    def boolval(self, t):
        """hash of a predicate used as a value: (hash, polarity)"""
        op = t.op
        if op == "not":
            h, p = self.boolval(t.args[0])
            return h, not p
        if op == "and":
            parts = set()
            for a in t.args:
                parts.add(self.boolval(a))
            if len(parts) == 1:
                return next(iter(parts))
            return H("and", sorted(parts)), True
        if op in ("lt", "le"):
            d = (self.ev(t.args[0]) - self.ev(t.args[1])) % P
            best = None
            for k in K:
                e = d * k % P
                for f, s in ((e, 1), ((P - e) % P, -1)):
                    if best is None or f < best[0]:
                        best = (f, s)
            d = self._canon_d(d)
            c, s = d
            # lt: c*s < 0 ; le = not gt
            if op == "lt":
                return H("sg", c, -s), True
            return H("sg", c, s), False
        if op == "eq":
            va, vb = self.ev(t.args[0]), self.ev(t.args[1])
            if any(is_const(a) and not is_num(a) for a in t.args):
                return H("eqc", sorted((va, vb))), True
            c, s = self._canon_d((va - vb) % P)
            return H("eq0", c), True
        if op == "truthy":
            x = t.args[0]
            if is_boolish(x) and x.op != "app":
                return self.boolval(x)
            return H("truthy", self.ev(x)), True
        if op == "ite":
            return self.boolval(t.args[1] if self.truth(t.args[0]) else t.args[2])
        return H("bv", self._ev(t)), True

    def _canon_d(self, d):
        e = (P - d) % P
        return (d, 1) if d < e else (e, -1)

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "const":
            v = a[0]
            if isinstance(v, Fraction):
                r = frac(v)
                NUMV[r] = v
                return r
            r = H("const", v)
            CONSTV[r] = v
            return r
        if op == "imag_unit":
            return I
        if op == "add":
            return (self.ev(a[0]) + self.ev(a[1])) % P
        if op == "neg":
            return -self.ev(a[0]) % P
        if op == "mul":
            return self._mul(t)
        if op == "div":
            return self.ev(a[0]) * inv(self.ev(a[1])) % P
        if op == "pow":
            return self._pow(a[0], a[1])
        if op == "ite" or op == "where":
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if op in ("lt", "le", "eq", "not", "and", "truthy"):
            if closed(t) and (op == "truthy" or norm.rank(t) == 0):
                try:
                    v = self.truth(t)
                    r = H("const", v)
                    CONSTV[r] = v
                    return r
                except NeedGate:
                    pass
            h, p = self.boolval(t)
            return h if p else H("not", h)
        if op == "app":
            return self._app(t)
        if op == "mu":
            return self.mu.get(t.id, H("mu", t.id))
        if op == "idx":
            return self.mu.get(t.id, H("idx", t.id))
        if op in ("map", "bigsum", "exists", "flat", "dictmap"):
            return self._binder(t)
        if op == "loopval":
            return self._loop(t)
        if op == "top":
            return H("top", t.id)
        if op == "dict":
            return H("dict", sorted((self.ev(k), self.part(v)) for k, v in a))
        if op == "list" and self.parts and len(a) > 1:
            return H(op, tuple(self.part(x) for x in a))
        if op == "record" and self.parts:
            return H(op, ("py", repr(a[0])), tuple((k, self.part(v)) for k, v in a[1]))
        return H(op, self.evx(a))

    parts = False

    def part(self, t):
        """component of a tuple: with parts set, its gates are decided for it alone"""
        if not self.parts or not has_gate(t):
            return self.ev(t)
        return self.local(None, lambda: self.ev(t))

    def _mul(self, t):
        # flatten to pair square roots
        fac, stack = [], [t]
        while stack:
            x = stack.pop()
            if x.op == "mul":
                stack.extend(x.args)
            else:
                fac.append(x)
        sq, r = {}, 1
        for f in fac:
            if f.op == "app" and f.args[0] == "sqrt":
                v = self.ev(f.args[1][0])
                sq[v] = sq.get(v, 0) + 1
            else:
                r = r * self.ev(f) % P
        for v, n in sq.items():
            r = r * pow(v, n // 2, P) % P
            if n % 2:
                r = r * H("f", "sqrt", v) % P
        return r

    def _pow(self, b, e):
        if is_num(e):
            f = cval(e)
            if f.denominator == 1:
                n = int(f)
                if b.op == "app" and b.args[0] == "sqrt" and n % 2 == 0:
                    return self._ipow(self.ev(b.args[1][0]), n // 2)
                return self._ipow(self.ev(b), n)
            if f.denominator == 2:
                s = H("f", "sqrt", self.ev(b))
                n = int(f * 2)
                q, r = divmod(n, 2)
                return self._ipow(self.ev(b), q) * (s if r else 1) % P
        return H("pow", self.ev(b), self.ev(e))

    def _ipow(self, v, n):
        return pow(v, n, P) if n >= 0 else inv(pow(v, -n, P))

    def _log(self, x):
        if x.op == "mul":
            return (self._log(x.args[0]) + self._log(x.args[1])) % P
        if x.op == "div":
            return (self._log(x.args[0]) - self._log(x.args[1])) % P
        if x.op == "pow" and is_num(x.args[1]):
            return frac(cval(x.args[1])) * self._log(x.args[0]) % P
        if x.op == "app" and x.args[0] == "sqrt":
            return HALF * self._log(x.args[1][0]) % P
        if is_num(x) and cval(x) == 1:
            return 0
        if x.op == "neg":
            return H("f", "log", self.ev(x))
        return H("f", "log", self.ev(x))

    def _exp(self, x):
        if x.op == "add":
            return self._exp(x.args[0]) * self._exp(x.args[1]) % P
        if x.op == "neg":
            return inv(self._exp(x.args[0]))
        v = self.ev(x)
        e = (P - v) % P
        if v == 0:
            return 1
        return H("f", "exp", v) if v < e else inv(H("f", "exp", e))

    def _app(self, t):
        fn, pos, kw = t.args
        if fn == "pi":
            return PI
        if not kw and len(pos) == 1:
            x = pos[0]
            if fn == "log":
                return self._log(x)
            if fn == "exp":
                return self._exp(x)
            if fn == "sqrt":
                v = self.ev(x)
                if is_num(x):
                    f = cval(x)
                    n, d = f.numerator, f.denominator
                    import math
                    if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                        return frac(Fraction(math.isqrt(n), math.isqrt(d)))
                return H("f", "sqrt", v)
            if fn in EVEN:
                c, s = self._canon_d(self.ev(x))
                return H("f", fn, c)
            if fn in ODD:
                v = self.ev(x)
                if v == 0:
                    return 0
                c, s = self._canon_d(v)
                return H("f", fn, c) * s % P
            if fn in ("real", "imag"):
                return self._reim(fn, x)
            if fn == "squeeze_id":
                return self.ev(x)
        if fn in COMM:
            return H("f", fn, sorted(self.ev(x) for x in pos), self.evx(kw))
        if kw or len(pos) != 1:
            return H("f", fn, [self.evx(x) for x in pos], [(k, self.evx(v)) for k, v in kw])
        return H("f", fn, self.ev(pos[0]))

    def _reim(self, fn, x):
        if x.op == "add":
            return (self._reim(fn, x.args[0]) + self._reim(fn, x.args[1])) % P
        if x.op == "neg":
            return -self._reim(fn, x.args[0]) % P
        if x.op == "imag_unit":
            return 0 if fn == "real" else 1
        if x.op == "mul":
            p, q = x.args
            for u, v in ((p, q), (q, p)):
                if u.op == "imag_unit":
                    return (-self._reim("imag", v)) % P if fn == "real" else self._reim("real", v)
                if self.isreal(u):
                    return self.ev(u) * self._reim(fn, v) % P
        if x.op in ("ite", "where"):
            return self._reim(fn, x.args[1] if self.truth(x.args[0]) else x.args[2])
        if self.isreal(x):
            return self.ev(x) if fn == "real" else 0
        v = self.ev(x)
        re = H("f", "real", v)
        return re if fn == "real" else (v - re) * inv(I) % P

    def isreal(self, x):
        if is_num(x):
            return True
        if x.op == "sym":
            return x.args[1] in ("real", "posreal")
        if x.op == "app":
            return x.args[0] in ("real", "imag", "abs", "pi", "angle", "len", "arctan", "interp", "zeros_like", "paramvalue")
        if x.op in ("add", "mul", "neg", "div"):
            return all(self.isreal(y) for y in x.args)
        if x.op == "pow":
            return self.isreal(x.args[0]) and is_num(x.args[1]) and cval(x.args[1]).denominator == 1
        if x.op in ("getitem",):
            return self.isreal(x.args[0])
        if x.op in ("ite", "where"):
            return self.isreal(x.args[1]) and self.isreal(x.args[2])
        return False

    MAXLOCAL = 300

    def local(self, bound, f):
        """Canonical number of a body whose gates depend on bound variables: the
        multilinear extension of its decision function, summed over the local
        gate valuations (independent of the order in which gates are met)."""
        stack = [({}, 1)]
        total, leaves = 0, 0
        outer = self.gates
        memo, cmemo = self.mumemo, self.memo
        try:
            while stack:
                extra, weight = stack.pop()
                self.gates = {**outer, **extra} if extra else outer
                self.mumemo = {}
                if bound is None and extra:
                    self.memo = {}
                try:
                    v = f()
                except Infeasible:
                    if not extra:
                        raise
                    v = H("infeasible")
                except NeedGate as g:
                    t = g.desc[0] if g.desc else None
                    if t is None or bound is not None and not any(m.id in bound for m in free_mu(t)):
                        raise
                    rest = 1
                    vals = list(g.values)
                    for n, gv in enumerate(vals):
                        if n + 1 < len(vals):
                            w = H("rho", g.key, repr(gv))
                            rest = (rest - w) % P
                        else:
                            w = rest
                        stack.append(({**extra, g.key: gv}, weight * w % P))
                    continue
                leaves += 1
                if leaves > self.MAXLOCAL:
                    raise TooBig()
                total = (total + weight * v) % P
        finally:
            self.gates = outer
            self.mumemo, self.memo = memo, cmemo
        return total

    def _binder(self, t):
        """map / bigsum / exists / flat / dictmap: alpha-invariant hash of the body"""
        idx, dom = t.args[0], t.args[1]
        vd = self.ev(dom)
        old, memo = self.mu.get(idx.id), self.mumemo
        self.depth += 1
        self.mu[idx.id] = H("idx", self.depth, vd)
        self.mumemo = {}
        try:
            parts = []
            bound = {idx.id}
            for x in t.args[2:]:
                if x is TRUE:
                    parts.append("true")
                elif isinstance(x, T) and (t.op == "exists" or (t.op != "flat" and x is t.args[-1])):
                    parts.append(self.local(bound, lambda: H("p", self.boolval(x))))
                else:
                    parts.append(self.local(bound, lambda: self.evn(x)))
        finally:
            self.depth -= 1
            self.mumemo = memo
            if old is None:
                self.mu.pop(idx.id, None)
            else:
                self.mu[idx.id] = old
        return H(t.op, vd, parts)

    depth = 0

    def _loop(self, t):
        L, k = t.args
        idx, dom, mus, inits, bodies, brk, brkv = L.args
        vd = self.ev(dom)
        save_mu, save_memo = dict(self.mu), self.mumemo
        # only the carried slots this one depends on
        need, todo = set(), [k]
        musid = {m.id: n for n, m in enumerate(mus)}
        fb = free_mu(brk) if isinstance(brk, T) else frozenset()
        while todo:
            j = todo.pop()
            if j in need:
                continue
            need.add(j)
            fv = free_mu(bodies[j]) | fb
            if brkv:
                fv = fv | free_mu(brkv[j])
            for m in fv:
                if m.id in musid:
                    todo.append(musid[m.id])
        need = sorted(need)
        vi = {j: H("mu0", self.ev(inits[j])) for j in need}
        cur = dict(vi)
        hb = 0
        self.depth += 1
        bound = {mus[j].id for j in need} | {idx.id}
        try:
            for _ in range(len(need) + 1):
                for j in need:
                    self.mu[mus[j].id] = H("mu", cur[j])
                self.mu[idx.id] = H("idx", self.depth, vd)
                self.mumemo = {}
                if brk is not FALSE:
                    hb = H("brk", self.local(bound, lambda: H("p", self.boolval(brk))))
                cur = {j: H("r", vi[j], self.local(bound, lambda: self.ev(bodies[j])),
                            self.local(bound, lambda: self.ev(brkv[j])) if brkv else 0) for j in need}
        finally:
            self.depth -= 1
            self.mu = save_mu
            self.mumemo = save_memo
        return H("loopval", vd, cur[k], hb)


MAXLEAVES = 6000


def decide(terms, visit, maxleaves=MAXLEAVES, parts=False):
    """Evaluate a tuple of terms under every consistent gate valuation.

    visit(values, trail, ev) is called per leaf; return False to stop."""
    leaves = 0
    stack = [({}, {}, ())]
    while stack:
        gates, over, trail = stack.pop()
        e = Ev(gates, over)
        e.parts = parts
        try:
            vals = tuple(e.ev(t) for t in terms)
        except Infeasible:
            continue
        except NeedGate as g:
            for v in reversed(g.values):
                ng = dict(gates)
                ng[g.key] = v
                no = over
                if g.key[0] == "sign" and v == 0 and g.desc:
                    no = _equate(e, g.desc[0], over)
                elif g.key[0] == "enum" and not isinstance(v, tuple):
                    no = dict(over)
                    no[g.key[1]] = v
                stack.append((ng, no, trail + ((g.desc[0] if g.desc else None, g.key, v),)))
            continue
        leaves += 1
        if leaves > maxleaves:
            raise TooBig()
        if visit(vals, trail, e) is False:
            return leaves
    return leaves


def _equate(e, t, over):
    """under an '=' gate, let the atomic side stand for the other side"""
    if t is None or t.op not in ("lt", "le", "eq"):
        return over
    a, b = t.args
    try:
        for x, y in ((a, b), (b, a)):
            if x.op in ("sym", "field", "getitem") or (x.op == "app" and x.args[0] in ("len",)):
                if is_const(y) or y.op in ("sym", "field"):
                    no = dict(over)
                    no[e.ev(x)] = e.ev(y)
                    return no
    except (NeedGate, Infeasible):
        pass
    return over


def arity(t):
    """number of components of a tuple-valued graph (alternatives agreeing), or None"""
    if t.op == "list":
        return ("list", len(t.args))
    if t.op == "dict":
        return ("dict", tuple(k for k, _ in t.args))
    if t.op == "record":
        return ("record", t.args[0], tuple(k for k, _ in t.args[1]))
    if t.op == "ite":
        x = arity(t.args[1])
        return x if x is not None and x == arity(t.args[2]) else None
    return None


def component(t, k):
    if t.op == "ite":
        return ite(t.args[0], component(t.args[1], k), component(t.args[2], k))
    if t.op == "list":
        return t.args[k]
    if t.op == "dict":
        return t.args[k][1]
    return t.args[1][k][1]


def split(a, b, depth=0):
    """congruence shown part by part, for graphs too large to enumerate whole"""
    if a is b:
        return True
    if depth > 12:
        return False
    r, why = congruent(a, b, 400, False)
    if r is not None:
        return r
    n = arity(a)
    if n is not None and n == arity(b):
        m = n[1] if n[0] == "list" else len(n[-1])
        return all(split(component(a, k), component(b, k), depth + 1) for k in range(m))
    if a.op == "ite" and b.op == "ite" and congruent(a.args[0], b.args[0], 400, False)[0]:
        return split(a.args[1], b.args[1], depth + 1) and split(a.args[2], b.args[2], depth + 1)
    if a.op in ("map", "flat") and a.op == b.op:
        i, j = a.args[0], b.args[0]
        if not split(a.args[1], b.args[1], depth + 1):
            return False
        for x, y in zip(a.args[2:], b.args[2:]):
            if not split(x, norm.subst(y, {j.id: i}), depth + 1):
                return False
        return True
    return False


def congruent(a, b, maxleaves=3000, deep=True):
    """(True, None) when both graphs get one number under every gate valuation"""
    bad = []

    def visit(vals, trail, e):
        if vals[0] != vals[1]:
            bad.append(trail)
            return False
        return True
    try:
        try:
            decide((a, b), visit, 300 if deep else maxleaves)
        except TooBig:
            if not deep:
                raise
            del bad[:]
            try:
                decide((a, b), visit, 1000, True)
                if bad:
                    raise TooBig()
            except TooBig:
                del bad[:]
                decide((a, b), visit, maxleaves)
    except TooBig:
        if deep and split(a, b):
            return True, None
        return None, "value graph too large"
    if bad:
        return False, bad[0]
    return True, None


DEEP = False


def diverge(a, b, trail):
    """deepest pair of corresponding nodes that still differ under these gates"""
    gates, over = {}, {}
    for d, k, v in trail:
        gates[k] = v
        if k[0] == "enum" and not isinstance(v, tuple):
            over = dict(over)
            over[k[1]] = v
        elif k[0] == "sign" and v == 0 and d is not None:
            over = _equate(Ev(gates, over), d, over)
    e = Ev(gates, over)

    def val(t):
        try:
            return e.ev(t)
        except (NeedGate, Infeasible, TooBig):
            return None

    def peel(t):
        while t.op in ("ite",):
            try:
                t = t.args[1] if e.truth(t.args[0]) else t.args[2]
            except (NeedGate, Infeasible, TooBig):
                break
        return t
    for _ in range(400):
        a, b = peel(a), peel(b)
        if a.op != b.op:
            return a, b
        if a.op == "loopval":
            La, Lb = a.args[0], b.args[0]
            if len(La.args[2]) != len(Lb.args[2]):
                return a, b
            pairs = [(La.args[1], Lb.args[1])] + list(zip(La.args[3], Lb.args[3]))
            nxt = next(((x, y) for x, y in pairs if val(x) != val(y)), None)
            if nxt is None:
                for n, (m, mm) in enumerate(zip(La.args[2], Lb.args[2])):
                    e.mu[m.id] = e.mu[mm.id] = H("dbg", n, e.depth)
                e.mu[La.args[0].id] = e.mu[Lb.args[0].id] = H("dbgi", e.depth)
                e.depth += 1
                e.mumemo = {}
                nxt = next(((x, y) for x, y in zip(La.args[4], Lb.args[4]) if val(x) != val(y)), None)
            if nxt is None:
                return a, b
            a, b = nxt
            continue

        def kids(t):
            out = []
            for x in t.args:
                if isinstance(x, T):
                    out.append(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            out.append(y)
                        elif isinstance(y, tuple):
                            out.extend(z for z in y if isinstance(z, T))
                else:
                    out.append(x)
            return out
        ka, kb = kids(a), kids(b)
        if len(ka) != len(kb) or [x for x in ka if not isinstance(x, T)] != [x for x in kb if not isinstance(x, T)]:
            return a, b
        if a.op in ("map", "bigsum", "exists", "flat", "dictmap"):
            e.mu[ka[0].id] = e.mu[kb[0].id] = H("dbgi", e.depth)
            e.depth += 1
            e.mumemo = {}
            ka, kb = ka[1:], kb[1:]
        diff = [(x, y) for x, y in zip(ka, kb) if isinstance(x, T) and isinstance(y, T) and x is not y and val(x) != val(y)]
        if len(diff) != 1 and a.op in ("add", "mul"):
            va = {}
            for y in kb:
                va.setdefault(val(y), []).append(y)
            ra = []
            for x in ka:
                l = va.get(val(x))
                if l:
                    l.pop()
                else:
                    ra.append(x)
            rb = [y for l in va.values() for y in l]
            if len(ra) == 1 and len(rb) == 1:
                a, b = ra[0], rb[0]
                continue
            if DEEP and len(ra) == len(rb):
                a, b = ra[0], rb[0]
                continue
            return a, b
        if not diff:
            return a, b
        a, b = diff[0]
    return a, b
