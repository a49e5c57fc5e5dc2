"""Alarm filter: distinguishing points for two value graphs.

Two graphs whose normal forms differ are only reported when they can be told
apart: both graphs are interpreted over random points of the (numeric) domain
of their leaf symbols -- random interpretation again, over the floats instead
of GF(P).  Uninterpreted functions get smooth random interpretations.  A node
without an interpretation raises Unknown, which makes the point useless, never
a report.
"""
import hashlib
import math
import random
import warnings
from fractions import Fraction

import itertools
import numpy as np
from .texts import TEXTS

from .terms import *
from . import norm

warnings.filterwarnings("ignore")
np.seterr(all="ignore")


class Unknown(Exception):
    pass


class EvalError(Exception):
    """the operation itself fails (shape mismatch, index out of range...)"""


class Raised(EvalError):
    """the program itself raises here (not a limit of this evaluator)"""


class Key:
    """opaque identity: parameter, model, handle..."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Key) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<{self.name}>"


class SymMap:
    def __init__(self, name, base, over=None):
        self.name, self.base, self.over = name, base, over or {}

    def get(self, k):
        if k in self.over:
            return self.over[k]
        return self.base(self.name, k)

    def set(self, k, v):
        o = dict(self.over)
        o[k] = v
        return SymMap(self.name, self.base, o)


class DF:
    """data frame given by its columns (lazily interpreted)"""

    def __init__(self, n, colf, sel=None, over=None, names=None):
        self.n, self.colf, self.sel, self.over = n, colf, sel, over or {}
        self.cache = {}

    def col(self, c):
        if c in self.over:
            return self.over[c]
        if c not in self.cache:
            v = self.colf(c)
            if self.sel is not None:
                v = v[self.sel]
            self.cache[c] = v
        return self.cache[c]

    def rows(self, sel):
        idx = np.arange(self.n)
        if self.sel is not None:
            idx = idx[self.sel] if False else idx
        pick = np.arange(self.n)[sel]
        src = self
        return DF(len(pick), lambda c: np.asarray(src.col(c))[pick], None, None)

    def with_col(self, c, v):
        o = dict(self.over)
        o[c] = v
        return DF(self.n, self.colf, self.sel, o)


def hsh(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


def h01(*xs):
    return hsh(*xs) / 2.0 ** 64


ANYLEN = {}          # symbol name -> length group (set by the specification)


class Point:
    """one random interpretation of the leaf symbols"""

    def __init__(self, seed, pools=(), mode=0, hp=False):
        self.seed = seed
        self.rng = random.Random(seed)
        self.pools = list(pools)
        self.words = ()
        self.novel = False
        self.wobble = 0.0
        self.mode = mode
        self.lens = {}
        self.syms = {}
        self.hp = hp
        self.keys = {}
        r = random.Random(hsh("len", seed))
        self.defn = r.choice([1, 2, 3, 3, 4, 5, 6]) if mode != 2 else r.choice([0, 1])

    def length(self, g):
        if g not in self.lens:
            if isinstance(g, int):
                return g
            r = random.Random(hsh("len", self.seed, g))
            if g == "n":
                self.lens[g] = self.defn
            else:
                self.lens[g] = r.choice([1, 2, 3, 4, 5]) if self.mode != 2 else r.choice([0, 1, 2])
                if self.mode == 4:
                    # collections around the sizes the code mentions
                    c = [int(v) for v in self.pools if v == int(v) and 3 <= v <= (1200 if self.novel else 150)]
                    if c:
                        self.lens[g] = r.choice(c) + r.choice([-1, 0, 1, 2, 3, 4])
        return self.lens[g]

    def real(self, tag, kind):
        r = random.Random(hsh(self.seed, tag))
        x = r.random()
        if self.mode == 6 and kind != "unit":
            b = Point(self.seed, (), 0).real("base", kind)
            return b * (1 + self.jitter(r))
        if self.pools and x < (0.5 if self.mode in (1, 5) else 0.15):
            v = self.near(r)
            if self.mode == 5 and (kind in RANGES or kind in LIMITS):
                # thresholds the code mentions, as far as they make sense for this kind of quantity
                lo, hi = LIMITS[kind] if kind in LIMITS else RANGES[kind][:2]
                if lo <= v <= hi:
                    return v
        else:
            s = r.choice([1.0, 1.0, 3.0, 30.0, 400.0])
            v = r.randint(-40, 80) / 8 if r.random() < 0.06 else r.uniform(-s, s) if r.random() < 0.5 else r.uniform(0, s)
        if kind in ("posreal", "posarr", "posarr2"):
            v = abs(v) + r.choice([1e-3, 0.1])
        elif kind == "unit":
            v = r.random() if r.random() < 0.85 else r.choice([0.0, 1.0])
        elif kind == "wl":
            v = r.choice([350.0, 500.0, 633.0, 500.004, 633.3]) if r.random() < 0.4 else r.uniform(300.0, 900.0)
        elif kind == "aoi":
            v = r.choice([45.0, 60.0, 75.0, 60.002]) if r.random() < 0.4 else r.uniform(20.0, 85.0)
        elif kind in RANGES:
            lo, hi, extra = RANGES[kind]
            v = r.choice(extra) if extra and r.random() < 0.25 else r.uniform(lo, hi)
        return v

    def repeat(self, tag, v):
        """measurements repeat wavelengths and angles"""
        r = random.Random(hsh(self.seed, "repeat", tag))
        if len(v) > 1 and r.random() < 0.4:
            for i in range(1, len(v)):
                if r.random() < 0.6:
                    v[i] = v[r.randrange(i)]
        if self.mode == 7 and len(v) and r.random() < 0.6:
            v[r.randrange(len(v))] = math.nan

    def jitter(self, r):
        """nearly equal numbers, for tolerances"""
        return r.choice([1, -1]) * r.choice([0, 4e-6, 4e-6, 1e-4, 1e-3] + [v * r.random() for v in self.pools if abs(v) < 0.05])

    def near(self, r):
        v = r.choice(self.pools)
        j = r.choice([0, 0, 1, -1, 1e-3]) if self.mode != 5 else r.choice([0, 1e-3, "-", "half", "double"])
        if j == "-":
            return v - abs(v) * 1e-3
        if j == "half":
            return v * r.random()
        if j == "double":
            return v * (1 + r.random())
        return v + j * (abs(v) * 1e-3 + 1e-3 if j == 1e-3 else 1)

    def make(self, name, kind):
        if name.startswith("#"):
            return self.length(name[1:])
        r = random.Random(hsh(self.seed, "s", name))
        spec = ANYLEN.get(name)
        if kind in ("real", "posreal", "unit"):
            return self.num(self.real(name, RANGE.get(name, kind)))
        if kind == "num":
            if r.random() < 0.3:
                return int(r.randint(-3, 6))
            return self.num(self.real(name, "real"))
        if kind in ("int", "posint"):
            if self.mode == 4:
                c = [int(v) for v in self.pools if v == int(v) and 3 <= v <= 150]
                if c and r.random() < 0.7:
                    return r.choice(c) + r.choice([-1, 0, 1, 2])
            return r.randint(-3, 6) if kind == "int" else r.randint(1, 5)
        if kind == "cplx":
            return complex(self.real((name, "re"), RANGE.get(name, "real")), abs(r.choice([0.0, r.uniform(0, 2.0)])))
        if kind == "bool":
            return r.random() < 0.5
        if kind in ("arr", "posarr", "narr", "carr", "barr"):
            n = self.length(spec[0] if spec else "n")
            if kind == "barr":
                return np.array([r.random() < 0.6 for _ in range(n)], dtype=bool)
            v = np.array([self.real((name, i), RANGE.get(name, kind)) for i in range(n)], dtype=float)
            self.repeat(name, v)
            if RANGE.get(name) == "sorted":
                v = np.sort(v)
            if kind == "narr" and r.random() < 0.4:
                return np.round(v).astype(int)
            if RANGE.get(name) == "nstack":
                k = np.array([abs(self.real((name, i, "i"), "kk")) for i in range(n)])
                k[:1] = 0
                if self.mode == 4:      # light has to reach the far end of a long stack
                    k[:] = 0
                return v + 1j * k
            if kind == "carr":
                return v + 1j * np.array([abs(self.real((name, i, "i"), "real")) * r.choice([0, 1]) for i in range(n)])
            return self.num(v)
        if kind in ("arr2", "posarr2", "narr2", "carr2"):
            n = self.length(spec[0] if spec else "n")
            m = self.length(spec[1]) if spec and len(spec) > 1 else 2
            rg = RANGE.get(name, kind)
            cols = []
            if rg == "layers":
                rg = ["thickA", "nk", "kk", "unit", "unit"]
            byrow = isinstance(rg, (tuple, list)) and spec and spec[0] == len(rg)
            for j in range(m):
                k = rg if byrow else rg[j] if isinstance(rg, (tuple, list)) else rg
                cols.append([self.real((name, i, j), k[i] if byrow else k) for i in range(n)])
            v = np.array(cols, dtype=float).reshape(m, n).T
            if n == 4:
                v = np.array(v)
                for i in range(4):
                    self.repeat((name, i), v[i])
            if kind == "narr2" and r.random() < 0.4:
                return np.round(v).astype(int)
            if kind == "carr2":
                return v + 0j
            return self.num(np.array(v))
        if kind in ("str", "path"):
            pool = STRPOOL.get(name)
            if self.mode == 5 and self.words and pool and kind == "str":
                w = r.choice(self.words)
                pool = list(pool) + [w, w + "x", w[:-1], w.upper(), w.lower(), w[1:], " " + w, r.choice(pool).upper()]
            if pool:
                return r.choice(pool)
            return f"{name}{r.randint(0, 9)}.txt"
        if kind == "handle" and STRPOOL.get(name):
            return r.choice(STRPOOL[name])
        if kind in ("param", "model", "callable", "object", "user", "any", "handle", "optobj"):
            k = Key(name)
            if kind == "param":
                self.keys[k] = 1
            return k
        if kind == "params":
            m = r.choice([0, 1, 2, 3, 4]) if self.mode else r.choice([1, 2, 3, 4])
            if spec and r.random() < 0.9:
                m = self.length(spec[0])
            ks = [Key(f"{name}.p{r.randint(0, 3)}") for _ in range(m)]
            for k in ks:
                self.keys[k] = 1
            return ks
        if kind == "map":
            return SymMap(name, self.field)
        if kind == "dict":
            return {k: Key(f"{name}[{k}]") for k in STRPOOL.get(name, ["a", "b"]) if r.random() < 0.7}
        if kind == "list":
            return [self.num(self.real((name, i), "real")) for i in range(self.length(spec[0] if spec else "n"))]
        if kind == "df":
            return self.frame(name)
        raise Unknown("sample " + kind)

    def num(self, v):
        return v

    def frame(self, ident):
        n = random.Random(hsh(self.seed, "dfn", ident)).choice([1, 2, 3, 4, 6, 8, 10, 12])
        return DF(n, lambda c: self.column(ident, c, n))

    def column(self, ident, c, n):
        r = random.Random(hsh(self.seed, "col", ident, c))
        pool = [round(r.uniform(0.2, 90), 3) for _ in range(3)]
        if r.random() < 0.3:
            pool[0] = 0.0
        if str(c).lower().endswith("pos") or str(c).startswith("Time"):
            # stage positions and times stay put for a while
            v, cur = [], r.choice(pool)
            for _ in range(n):
                if r.random() < 0.3:
                    cur = r.choice(pool)
                v.append(cur + (r.choice([0, 0, 0.05, 0.15, 0.3]) if str(c).endswith("pos") else 0))
            return np.array(v, dtype=float)
        if str(c) in ("AOI", "#Lambda"):
            v = [r.choice(pool[:2]) for _ in range(n)]
        elif str(c) == "Delta":
            v = [r.uniform(0.1, 400) for _ in range(n)]
        elif r.random() < 0.5:
            v = [r.choice(pool) for _ in range(n)]
        else:
            v = [r.uniform(0.1, 400) for _ in range(n)]
        return np.array(v, dtype=float)

    def field(self, mname, key):
        nm = mname[2:] if mname.startswith("F.") else mname
        r = random.Random(hsh(self.seed, "field", mname, keyid(key)))
        if nm in ("vary", "_vary", "weighted", "lnsigma_is", "_flip_delta", "dispersive", "delta_reflected"):
            return r.random() < 0.6
        if nm in ("value",):
            v = r.choice([r.uniform(0.05, 0.95), r.uniform(0, 5), r.uniform(0, 100)])
            x = r.random()
            if self.mode == 5 and self.pools and r.random() < 0.5:
                return self.shake(self.near(r))
            if self.mode == 6:
                return self.shake(Point(self.seed, (), 0).real("base", "real") * (1 + self.jitter(r)))
            return 0.0 if x < 0.06 else self.shake(-v if x < 0.18 else v)
        if nm == "name":
            return f"nm{keyid(key)}"
        return Key(f"{mname}[{keyid(key)}]")

    def shake(self, v):
        """inputs a hair off, to see whether a result is determined by them at all"""
        if self.wobble and (isinstance(v, (float, complex)) or isinstance(v, np.ndarray) and v.dtype.kind in "fc"):
            return v * (1 + self.wobble)
        return v

    def sym(self, name, kind):
        if name not in self.syms:
            self.syms[name] = self.shake(self.make(name, kind))
        return self.syms[name]


RANGE = {}
LIMITS = {"thick": (1e-6, 1e7), "thickA": (1e-5, 1e8), "angle": (0.0, 1.5705), "kk": (0.0, 30.0), "nk": (0.01, 30.0), "nstack": (0.3, 30.0), "delta2": (-1e4, 1e4), "period": (0.1, 1e4), "unit": (0.0, 1.0), "wl": (20.0, 20000.0), "um": (0.01, 1000.0), "aoi": (0.0, 89.9), "posreal": (1e-12, 1e9), "posarr": (1e-12, 1e9), "posarr2": (1e-12, 1e9)}
RANGES = {"cutlo": (100.0, 700.0, [300.0, 400.5, 650.0, 900.0, 400.4, 400.6, 649.7]), "cuthi": (300.0, 2500.0, [300.0, 650.0, 900.0, 2000.0, 400.6, 650.4, 900.3, 1999.8]), "period": (90.0, 400.0, [360.0, 180.0]), "delta2": (0.0, 720.0, [0.0, 180.0, 540.0]), "um": (0.2, 1.5, []), "nk": (0.2, 3.0, []), "nstack": (1.0, 3.0, [1.0]), "kk": (0.0, 1.5, [0.0]), "thick": (1.0, 400.0, [0.0, 20000.0, 1e6]),
          "thickA": (10.0, 4000.0, [0.0, 200000.0, 1e7]), "angle": (0.2, 1.45, []), "psi": (0.0, 90.0, []),
          "delta": (0.0, 360.0, [180.0, 181.0, 359.0])}
STRPOOL = {}


def keyid(k):
    return k.name if isinstance(k, Key) else repr(k)


def flatten_num(v, out, path=()):
    """numeric fingerprint of an argument: (weight, value) pairs"""
    if isinstance(v, (bool, np.bool_)):
        out.append((path, 1.0 if v else 0.0))
    elif isinstance(v, (int, float, np.integer, np.floating, Fraction)):
        out.append((path, float(v)))
    elif isinstance(v, (complex, np.complexfloating)):
        out.append((path + ("re",), v.real))
        out.append((path + ("im",), v.imag))
    elif isinstance(v, np.ndarray):
        if v.ndim == 0:
            flatten_num(v[()], out, path)
        else:
            out.append((path + ("n",), float(len(v))))
            for i, x in enumerate(v):
                flatten_num(x, out, path + (i,))
    elif isinstance(v, (list, tuple)):
        out.append((path + ("n",), float(len(v))))
        for i, x in enumerate(v):
            flatten_num(x, out, path + (i,))
    elif isinstance(v, dict):
        for k in sorted(v, key=repr):
            flatten_num(v[k], out, path + (repr(k),))
    elif v is None or isinstance(v, (str, bytes, Key)):
        out.append((path, h01("tok", repr(v)) * 3))
    elif isinstance(v, SymMap):
        out.append((path, h01("map", v.name) * 3))
        for k in sorted(v.over, key=repr):
            # an overwrite with the default is no overwrite
            if not same(v.over[k], v.base(v.name, k)):
                flatten_num(v.over[k], out, path + (repr(k),))
    elif isinstance(v, Rec):
        flatten_num(v.at, out, path + (v.cname,))
    elif isinstance(v, DF):
        out.append((path + ("n",), float(v.n)))
        for c in ("#probe",) + tuple(sorted(v.over)):
            flatten_num(v.col(c), out, path + (c,))
    else:
        raise Unknown("fingerprint " + type(v).__name__)


class Rec:
    def __init__(self, cname, at):
        self.cname, self.at = cname, at


def smooth(tag, args):
    """smooth pseudo-random function of the numeric contents of args"""
    fp = []
    flatten_num(list(args), fp)
    acc = h01("phase", tag) * 6
    for path, x in fp:
        w = h01("w", tag, path) * 1.9 + 0.1
        if not math.isfinite(x):
            x = 7.0 if x > 0 else (-7.0 if x < 0 else 3.3)
        acc += w * math.atan(x * 0.05) * 3 + 0.31 * w * math.sin(x * 0.9)
    return acc


# values a user's code may legitimately return
SPECIAL = {"mpsi": math.nan, "mdelta": math.nan, "call": -math.inf, "mlogp": -math.inf, "plogp": -math.inf, "bounds_logp": -math.inf, "mod_psi": math.nan, "mod_delta": math.nan, "mod_logp": -math.inf}


ODD = (("mlogp", "mod_logp"), ("call",), ("plogp", "bounds_logp"), ("mpsi", "mdelta", "mod_psi", "mod_delta"))


def oddity(seed, name):
    """how likely a callback gives a value that is not finite: one of them alone, or several"""
    c = int(7 * h01("odd", seed))
    if c < len(ODD):
        return 0.8 if name in ODD[c] else 0.0
    return 0.6 if seed % 2 else 0.25


def uf(pt, name, kind, args):
    base = smooth((pt.seed, name), args)
    if pt.mode == 3 and name in SPECIAL and h01("special", pt.seed, name) < oddity(pt.seed, name):
        if kind == "real":
            w = h01("which", pt.seed, name)
            return SPECIAL[name] if w < 0.6 else math.nan if w < 0.85 else math.inf
        n = next((len(a) for a in args if isinstance(a, np.ndarray) and a.ndim), 0)
        if kind == "arr" and n:
            v = np.array([math.sin(base * (1 + 0.17 * i)) for i in range(n)])
            v[-1] = SPECIAL[name]
            return v
    def f(k):
        if pt.mode == 5 and pt.pools and h01("near", pt.seed, name, k) < 0.25:
            v = pt.near(random.Random(hsh("near", pt.seed, name, k, round(base, 6))))
            if abs(v) < 3000:
                return v
        return 1.3 + math.sin(base * (1 + 0.17 * k) + k * 1.7)
    if kind in ("real", "num", "posreal"):
        return f(0) if kind != "real" else f(0) - 1.0
    if kind == "unit":
        return (math.sin(base) + 1) / 2
    if kind == "cplx":
        return complex(f(0), f(1) - 0.3)
    if kind == "bool":
        return math.sin(base * 3) > 0
    if kind in ("int", "posint"):
        return int(3 * f(0)) + (1 if kind == "posint" else 0)
    if kind in ("arr", "posarr", "carr"):
        n = None
        for a in args:
            if isinstance(a, np.ndarray) and a.ndim >= 1:
                n = len(a)
                break
        if n is None:
            n = pt.length("n")
        v = np.array([f(i) - (1.0 if kind != "posarr" else 0) for i in range(n)])
        return v + 1j * np.array([f(i + 50) for i in range(n)]) if kind == "carr" else v
    if kind in ("arr2", "posarr2"):
        n, m = None, None
        for a in args:
            if isinstance(a, np.ndarray) and a.ndim == 2:
                n, m = a.shape
                break
        if n is None:
            n, m = pt.length("n"), 5
        if name.startswith("loadtxt"):
            # a numeric table: mostly three or four columns, zeros among the entries of some
            m = [2, 3, 3, 4, 4, 3][int(6 * h01("columns", pt.seed, name))]
            v = np.array([[f(i * 7 + j) for j in range(m)] for i in range(n)]).reshape(n, m)
            if h01("zeros", pt.seed, name) < 0.4:
                for i in range(n):
                    for j in range(1, m):
                        if h01("zero", pt.seed, name, i, j) < 0.3:
                            v[i, j] = 0.0
            return v
        if name in ("stack", "block"):
            n = n % 4 + (2 if name == "stack" else 0)
            v = np.array([[f(i * 7 + j) for j in range(m)] for i in range(n)]).reshape(n, m)
            v[:, 0] *= 300
            if name == "stack":
                # absorbing or transparent layers under a transparent ambient medium (seldom an absorbing one)
                v[:, 2] = np.clip(v[:, 2] - 1.4, 0, None)
                if h01("ambient", pt.seed) < 0.85:
                    v[0, 2] = 0.0
            if pt.mode == 5:
                v[:, 4] = np.clip(v[:, 4], 0, 1)
            else:
                v[:, 4] = np.clip(v[:, 4] - 0.7, 0, 1) if h01("vf", pt.seed, name) < 0.7 else 0.0
            return v
        return np.array([[f(i * 7 + j) for j in range(m)] for i in range(n)]).reshape(n, m)
    if kind in ("any", "object", "model", "user", "param"):
        return Key(f"{name}#{round(base, 5)}")
    if kind == "params":
        k = Key(f"{name}#{round(base, 5)}")
        m = 1 + int(abs(base) * 10) % 3
        ks = [Key(f"{k.name}.{i}") for i in range(m)]
        for q in ks:
            pt.keys[q] = 1
        return ks
    if kind == "str":
        return f"{name}#{round(base, 5)}"
    if kind == "list":
        return [np.array([f(i * 5 + j) for j in range(4)]) for i in range(2)]
    raise Unknown("uf kind " + kind)


def isnum(v):
    return isinstance(v, (bool, int, float, complex, np.number, np.ndarray, np.bool_))


def arrify(v):
    """list of numbers -> array"""
    if isinstance(v, list):
        try:
            if any(isinstance(x, (str, Key, dict, type(None), SymMap, Rec, DF)) for x in v):
                raise Unknown("array of objects")
            return np.array([arrify(x) if isinstance(x, list) else x for x in v]) if v else np.array([], dtype=float)
        except ValueError:
            raise EvalError("ragged")
    if isinstance(v, tuple):
        return arrify(list(v))
    if isinstance(v, (Key, str, dict, type(None), SymMap, Rec, DF)):
        raise Unknown("number expected")
    return v


def same(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            # numeric keys up to tolerance
            ka, kb = sorted(a, key=repr), sorted(b, key=repr)
            if len(ka) != len(kb) or not all(same(x, y, tol) for x, y in zip(ka, kb)):
                return False
            return all(same(a[x], b[y], tol) for x, y in zip(ka, kb))
        return all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.cname.split(".")[-1] == b.cname.split(".")[-1] and same(a.at, b.at, tol)
    if isinstance(a, SymMap) and isinstance(b, SymMap):
        if a.name != b.name:
            return False
        return all(same(a.get(k), b.get(k), tol) for k in set(a.over) | set(b.over))
    if isinstance(a, DF) and isinstance(b, DF):
        if a.n != b.n:
            return False
        cs = set(a.over) | set(b.over) | set(a.cache) | set(b.cache) | {"probe@"}
        return all(same(a.col(c), b.col(c), tol) for c in cs)
    if isinstance(a, (list, tuple)) and isinstance(b, np.ndarray) or isinstance(b, (list, tuple)) and isinstance(a, np.ndarray):
        if len(a) != (len(b) if getattr(b, "ndim", 1) else -1):
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, Key, bytes)) or isinstance(b, (str, Key, bytes)):
        if isinstance(a, Key) and isinstance(b, Key) and "#" in a.name and "#" in b.name:
            p, x = a.name.split("#", 1)
            q, y = b.name.split("#", 1)
            try:
                return p == q and abs(float(x) - float(y)) < 1e-3
            except ValueError:
                return a == b
        return type(a) == type(b) and a == b
    if isnum(a) and isnum(b):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.size == 0:
            return True
        if x.dtype == bool and y.dtype == bool:
            return bool(np.all(x == y))
        x, y = x.astype(complex), y.astype(complex)
        nx, ny = np.isnan(x), np.isnan(y)
        if not np.array_equal(nx, ny):
            return False
        ok = ~nx
        fx, fy = np.isinf(x), np.isinf(y)
        if not np.array_equal(fx, fy):
            return False
        if np.any(fx) and not np.array_equal(np.sign(x[fx].real), np.sign(y[fx].real)):
            return False
        ok &= ~fx
        d = np.abs(x[ok] - y[ok])
        s = np.maximum(np.abs(x[ok]), np.abs(y[ok]))
        return bool(np.all(d <= tol * (s + 1e-6)))
    return type(a) == type(b) and a is b


def overflown(a, b):
    """do the two values agree wherever both are numbers?  (values near the constants of the code, in other units,
    may be so large that the same quantity overflows when computed in another order)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(overflown(x, y) for x, y in zip(a, b))
    if isnum(a) and isnum(b):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape == y.shape and x.dtype.kind in "fc" and y.dtype.kind in "fc":
            ok = np.isfinite(x) & np.isfinite(y)
            return same(x[ok], y[ok])
    return same(a, b)


def pools_of(ts):
    """constants the graphs compare with"""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op in ("lt", "le", "eq"):
                for y in x.args:
                    for z in subterms(y):
                        if is_num(z) and abs(cval(z)) < 10 ** 5:
                            out.add(float(cval(z)))
    return sorted(out)[:40]


def words_of(a, b):
    """short strings only one of the two graphs mentions"""
    def ws(t):
        return {z.args[0] for z in subterms(t) if z.op == "const" and isinstance(z.args[0], str) and 0 < len(z.args[0]) < 20}
    fs = [{x.args[0] for x in subterms(t) if x.op == "app" and str(x.args[0]).startswith("str.")} for t in (a, b)]
    return sorted(ws(a) ^ ws(b)) or (sorted(ws(a)) if fs[0] != fs[1] else [])


def novel_of(a, b):
    """numbers only one of the two graphs mentions"""
    def nums(t):
        return {float(cval(z)) for z in subterms(t) if is_num(z) and abs(cval(z)) < 10 ** 30}
    x, y = nums(a), nums(b)
    return sorted((x ^ y) - {0.0, 1.0, -1.0})[:20]


class EvalN:
    def __init__(self, pt):
        self.pt = pt
        self.memo = {}
        self.env = {}
        self.steps = 0

    def ev(self, t):
        fm = free_mu(t)
        if fm:
            key = (t.id, tuple((m.id, self.envver.get(m.id)) for m in sorted(fm, key=lambda m: m.id)))
        else:
            key = t.id
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > 200000:
            raise Unknown("too big")
        try:
            r = self._ev(t)
        except (Unknown, EvalError) as e:
            self.memo[key] = e
            raise
        except (ValueError, IndexError, TypeError, ZeroDivisionError, OverflowError, KeyError, AttributeError) as e:
            e2 = EvalError(f"{t.op} {t.args[0] if t.op == 'app' else ''}: {e!r}")
            self.memo[key] = e2
            raise e2
        self.memo[key] = r
        return r

    envver = {}

    def bind(self, node, v):
        old = (self.env.get(node.id), self.envver.get(node.id))
        self.env[node.id] = v
        self.ver = getattr(self, "ver", 0) + 1
        self.envver = dict(self.envver)
        self.envver[node.id] = self.ver
        return old

    def bindidx(self, node, k):
        self.env[node.id] = k
        self.envver = dict(self.envver)
        self.envver[node.id] = ("i", k)

    def n(self, t):
        return arrify(self.ev(t))

    def b(self, t):
        v = self.ev(t)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, np.ndarray):
            if v.size != 1:
                if v.size == 0:
                    return False
                raise EvalError("ambiguous truth")
            return bool(v.reshape(-1)[0])
        if isinstance(v, (list, dict, tuple, str)):
            return len(v) > 0
        if v is None:
            return False
        if isinstance(v, (Key, SymMap, Rec, DF)):
            return True
        return bool(v)

    def _ev(self, t):
        f = getattr(self, "o_" + t.op, None)
        if f is None:
            raise Unknown("op " + t.op)
        return f(t)

    # leaves
    def o_const(self, t):
        v = t.args[0]
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 and abs(v) < 2**62 else float(v)
        if isinstance(v, tuple) and v and v[0] == "float":
            return float(v[1])
        return v

    def o_imag_unit(self, t):
        return 1j

    def o_sym(self, t):
        if t.args[0] in self.over:
            return self.over[t.args[0]]
        return self.pt.sym(t.args[0], t.args[1])

    def o_idx(self, t):
        if t.id not in self.env:
            raise Unknown("free index")
        return self.env[t.id]

    o_mu = o_idx

    def o_top(self, t):
        raise Unknown("top " + str(t.args[0]))

    def o_unbound(self, t):
        raise Raised("unbound")

    def o_cyclic(self, t):
        return Key("cyclic")

    def o_record(self, t):
        return Rec(t.args[0], {a: self.ev(v) for a, v in t.args[1]})

    def o_method(self, t):
        return Key("method")

    def o_func(self, t):
        return Key(f"func{t.args[0]}")

    def o_ext(self, t):
        return Key("ext:" + str(t.args[0]))

    def o_cls(self, t):
        return Key("cls:" + str(t.args[0]))

    def o_exc(self, t):
        site = t.args[1]
        if t.args[0] == "ValueError" and isinstance(site, T) and site.op == "list" and len(site.args) == 1 \
                and site.args[0].op == "app" and site.args[0].args[0] == "float" and len(site.args[0].args[1]) == 1:
            v = self.ev(site.args[0].args[1][0])
            if isinstance(v, str):
                try:
                    float(v)
                    return False
                except ValueError:
                    return True
        if t.args[0] == "ValueError" and isinstance(site, T) and site.op == "list" and len(site.args) == 1 \
                and site.args[0].op == "app" and site.args[0].args[0] == "loadtxt":
            try:
                self.ev(site.args[0])
                return False
            except Raised:
                return True
        args = []
        for a in t.args[1:]:
            for x in (a if isinstance(a, tuple) else (a,)):
                args.append(self.ev(x))
        return math.sin(smooth((self.pt.seed, "exc", t.args[0]), args) * 5) > 0.4

    # arithmetic
    def o_add(self, t):
        a, b = self.n(t.args[0]), self.n(t.args[1])
        return a + b

    def o_neg(self, t):
        a = self.n(t.args[0])
        if isinstance(a, np.ndarray) and a.dtype == bool:
            raise EvalError("neg bool")
        return -a

    def o_mul(self, t):
        return self.n(t.args[0]) * self.n(t.args[1])

    def o_div(self, t):
        a, b = self.n(t.args[0]), self.n(t.args[1])
        return np.true_divide(a, b)

    def o_pow(self, t):
        a, b = self.n(t.args[0]), self.n(t.args[1])
        if isinstance(a, (int, np.integer)) and not isinstance(b, np.ndarray) and not isinstance(b, complex) and b < 0:
            a = float(a)
        if isinstance(a, np.ndarray) and a.dtype.kind == "i":
            a = a.astype(float)
        if not (isinstance(b, (int, np.integer)) or isinstance(b, float) and np.isfinite(b) and b == int(b)):
            a = cut(a, lambda x: x < 0, 'pow')
        return np.power(a, b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, float) else a ** b

    def cmp(self, t, f):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, (list, tuple)):
            a = arrify(a)
        if isinstance(b, (list, tuple)):
            b = arrify(b)
        if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
            a = a.real if hasattr(a, "real") else a
            b = b.real if hasattr(b, "real") else b
        if not (isnum(a) and isnum(b)):
            if isinstance(a, str) and isinstance(b, str):
                return f(a, b)
            raise Unknown("order of objects")
        return f(a, b)

    def o_lt(self, t):
        return self.cmp(t, lambda a, b: a < b)

    def o_le(self, t):
        return self.cmp(t, lambda a, b: a <= b)

    def o_eq(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isnum(a) and isnum(b):
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return same(a, b, 0)
        if isinstance(a, (list, tuple)) and isnum(b):
            return arrify(a) == b
        if isinstance(b, (list, tuple)) and isnum(a):
            return arrify(b) == a
        if isinstance(a, np.ndarray) and a.dtype.kind in "OU":
            return a == b
        return type(a) == type(b) and a == b

    def o_is(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        if isinstance(a, Key) and isinstance(b, Key):
            return a == b
        if isinstance(a, NUMS) and isinstance(b, NUMS) and not same(a, b):
            return False
        raise Unknown("identity")

    def o_idxt(self, t):
        return [self.ev(x) for x in t.args]

    def o_in(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(b, dict):
            return self.hk(a) in b
        if isinstance(b, str):
            return a in b
        if isinstance(b, (list, tuple, np.ndarray)):
            return any(same(a, x, 0) for x in b)
        if isinstance(b, DF) and isinstance(a, str):
            return a in b.over or h01(self.pt.seed, "hascol", a) < 0.75
        raise Unknown("in")

    def o_not(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, list):
            v = arrify(v)
        if isinstance(v, np.ndarray) and v.ndim:
            return np.logical_not(v)
        return not self.truth(v)

    def o_and(self, t):
        acc = None
        for x in t.args:
            v = self.ev(x)
            if isinstance(v, list):
                v = arrify(v)
            if isinstance(v, np.ndarray) and v.ndim:
                acc = v if acc is None else np.logical_and(acc, v)
            else:
                if not self.truth(v):
                    if acc is None or acc is True:
                        return False
                    acc = np.logical_and(acc, False)
                elif acc is None:
                    acc = True
        return acc if acc is not None else True

    def o_truthy(self, t):
        return self.truth(self.ev(t.args[0]))

    def o_ite(self, t):
        return self.ev(t.args[1] if self.b(t.args[0]) else t.args[2])

    def o_where(self, t):
        m = self.ev(t.args[0])
        if isinstance(m, list):
            m = arrify(m)
        return np.where(m, self.n(t.args[1]), self.n(t.args[2]))

    def o_hasattr(self, t):
        v = self.ev(t.args[0])
        return h01(self.pt.seed, "hasattr", repr(keyid(v)), t.args[1]) < 0.5

    def o_isinstance(self, t):
        v = self.ev(t.args[0])
        k = t.args[1:]
        if isinstance(v, Key):
            return h01(self.pt.seed, "isinstance", v.name, repr(k)) < 0.5
        raise Unknown("isinstance")

    # containers
    def o_list(self, t):
        return [self.ev(a) for a in t.args]

    def o_dict(self, t):
        return {self.hk(self.ev(k)): self.ev(v) for k, v in t.args}

    def hk(self, k):
        if isinstance(k, np.ndarray) and k.ndim == 0:
            k = k[()]
        if isinstance(k, (float, np.floating)):
            return float(k)
        if isinstance(k, list):
            return tuple(self.hk(x) for x in k)
        if isinstance(k, (np.integer,)):
            return int(k)
        return k

    def o_dictmerge(self, t):
        d = dict(self.ev(t.args[0]))
        d.update(self.ev(t.args[1]))
        return d

    def o_concat(self, t):
        parts = [self.ev(a) for a in t.args]
        if any(isinstance(p, np.ndarray) for p in parts):
            ps = [arrify(p) for p in parts]
            ps = [p for p in ps if not (p.ndim == 1 and p.size == 0 and any(q.ndim == 2 for q in ps))]
            return np.concatenate(ps)
        out = []
        for p in parts:
            out.extend(p)
        return out

    def index(self, i):
        if i.op == "slice":
            return slice(*[None if a is NONE else self.integer(a) for a in i.args])
        if i.op == "idxt":
            return tuple(self.index(a) for a in i.args)
        if i is NONE:
            return None
        v = self.ev(i)
        if isinstance(v, list):
            v = arrify(v)
            if v.size == 0:
                v = v.astype(int)
        return v

    def integer(self, a):
        v = self.ev(a)
        if isinstance(v, (float, np.floating)) and v == int(v):
            raise EvalError("float index")
        return v

    def o_getitem(self, t):
        b = self.ev(t.args[0])
        i = t.args[1]
        if isinstance(b, SymMap):
            return b.get(self.ev(i))
        if isinstance(b, dict):
            k = self.hk(self.ev(i))
            if k not in b:
                raise EvalError("KeyError")
            return b[k]
        if isinstance(b, DF):
            k = self.ev(i)
            if isinstance(k, str):
                return b.col(k)
            return b.rows(self.index(i))
        if isinstance(b, Key):
            raise Unknown("item of opaque")
        ix = self.index(i)
        if isinstance(b, (list, tuple, str)):
            if isinstance(ix, (int, np.integer)) and not isinstance(ix, bool):
                return b[int(ix)]
            if isinstance(ix, slice):
                return b[ix]
            if isinstance(b, str):
                raise EvalError("string index")
            b = arrify(b)
        if not isinstance(b, np.ndarray):
            if isinstance(ix, tuple) and all(x is None for x in ix) or ix is None:
                return np.asarray(b)[ix]
            if isinstance(b, (float, int, complex, np.number)) and (isinstance(ix, (bool, np.bool_)) or ix is Ellipsis):
                return np.asarray(b)[ix]
            raise EvalError("scalar subscript")
        if isinstance(ix, (float, np.floating)):
            raise EvalError("float index")
        if isinstance(ix, np.ndarray) and ix.dtype.kind == "b" and ix.ndim == 1 and b.ndim >= 1 and 0 < len(ix) < len(b):
            ix = np.flatnonzero(ix)     # positions found in a shorter array (numpy.where is kept as its mask)
        return b[ix]

    def o_setitem(self, t):
        b = self.ev(t.args[0])
        i = t.args[1]
        v = self.ev(t.args[2])
        if isinstance(b, SymMap):
            return b.set(self.ev(i), v)
        if isinstance(b, dict):
            d = dict(b)
            d[self.hk(self.ev(i))] = v
            return d
        if isinstance(b, DF):
            return b.with_col(self.ev(i), v)
        ix = self.index(i)
        if isinstance(b, list):
            if isinstance(ix, (int, np.integer)):
                c = list(b)
                c[int(ix)] = v
                return c
            b = arrify(b)
            if b.dtype.kind == "i":
                b = b.astype(float)
        if not isinstance(b, np.ndarray):
            raise EvalError("scalar store")
        v = arrify(v)
        c = np.array(b)
        if np.iscomplexobj(v) and not np.iscomplexobj(c):
            c = c.astype(complex)
        c[ix] = v
        return c

    def o_delitem(self, t):
        b = self.ev(t.args[0])
        if isinstance(b, dict):
            d = dict(b)
            d.pop(self.hk(self.ev(t.args[1])), None)
            return d
        c = list(b)
        del c[self.index(t.args[1])]
        return c

    # binders
    def dom(self, d):
        if d.op == "app" and d.args[0] == "unbounded":
            return None
        v = self.ev(d)
        if isinstance(v, np.ndarray):
            v = v[()]
        return max(0, int(v))

    def each(self, t, dom):
        idx = t.args[0]
        save = self.envver
        sv = self.env.get(idx.id)
        try:
            for k in range(dom):
                self.bindidx(idx, k)
                yield k
        finally:
            self.envver = save
            self.env[idx.id] = sv

    def o_map(self, t):
        idx, dom, e, g = t.args
        out = []
        for k in self.each(t, self.dom(dom)):
            if g is TRUE or self.b(g):
                out.append(self.ev(e))
        if out and all(isnum(x) and not (isinstance(x, np.ndarray) and x.ndim > 1) for x in out):
            if all(isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) for x in out):
                return [int(x) for x in out]    # whole numbers in a list are not tied to a type
            try:
                return np.array(out)
            except ValueError:
                return out
        return out

    def o_flat(self, t):
        idx, dom, e = t.args[:3]
        out = []
        for k in self.each(t, self.dom(dom)):
            v = self.ev(e)
            out.extend(list(v))
        return out

    def o_bigsum(self, t):
        idx, dom, e, g = t.args
        acc = 0
        for k in self.each(t, self.dom(dom)):
            if g is TRUE or self.b(g):
                acc = acc + self.n(e)
        return acc

    def o_exists(self, t):
        for k in self.each(t, self.dom(t.args[1])):
            if self.b(t.args[2]):
                return True
        return False

    def o_dictmap(self, t):
        idx, dom, k, v, g = t.args
        out = {}
        for _ in self.each(t, self.dom(dom)):
            if g is TRUE or self.b(g):
                out[self.hk(self.ev(k))] = self.ev(v)
        return out

    def o_loopval(self, t):
        r = self.ev(t.args[0])
        return r[t.args[1]]

    def o_loop(self, t):
        idx, dom, mus, inits, bodies, brk, brkv = t.args
        vals = [self.try_(x) for x in inits]
        n = self.dom(dom)
        lim = 300 if n is None else n
        save = self.envver
        try:
            k = 0
            while k < lim:
                self.bindidx(idx, k)
                for m, v in zip(mus, vals):
                    self.bind(m, v)
                if brk is not FALSE and self.b(brk):
                    return [self.try_(x) for x in brkv]
                vals = [self.try_(x) for x in bodies]
                k += 1
            if n is None:
                raise Unknown("loop bound")
            return vals
        finally:
            self.envver = save

    def try_(self, x):
        try:
            return self.ev(x)
        except (Unknown, EvalError) as e:
            return Poison(e)

    def o_range(self, t):
        a, b, s = [self.integer(x) for x in t.args]
        return list(range(int(a), int(b), int(s)))

    def o_zip(self, t):
        return [list(x) for x in zip(*[self.ev(a) for a in t.args])]

    def o_enumerate(self, t):
        return [[i, x] for i, x in enumerate(self.ev(t.args[0]), self.ev(t.args[1]))]

    def o_reversed(self, t):
        return list(reversed(self.ev(t.args[0])))

    def o_items(self, t):
        return [[k, v] for k, v in self.ev(t.args[0]).items()]

    def o_slice(self, t):
        return self.index(t)

    # library
    def o_app(self, t):
        fn, pos, kw = t.args
        if fn.startswith("u:"):
            _, nm, kind = fn.split(":")[:3]
            if nm == "jac":
                return self.jacobian(pos)
            if nm.startswith("svd_"):
                full = self.ev(dict(kw)["full_matrices"]) if "full_matrices" in dict(kw) else True
                return np.linalg.svd(self.n(pos[0]), full_matrices=full)["Us".index(nm[4]) if nm[4] in "Us" else 2]
            args = [self.ev(p) for p in pos] + [self.ev(v) for _, v in kw]
            return uf(self.pt, nm, kind, args)
        if fn.startswith("?"):
            raise Unknown(fn)
        if fn.startswith("np:"):
            args = [self.ev(p) if is_str(p) or p.op == "list" else self.n(p) for p in pos]
            f = getattr(np, fn[3:], None)
            if f is None:
                raise Unknown(fn)
            return f(*args, **{k: self.ev(v) for k, v in kw})
        if fn.startswith("colours:") and len(pos) == 1:
            return [Key(f"colour{round(float(x), 5)}") for x in np.ravel(self.n(pos[0]))]
        if fn.startswith("plt:"):
            return Rec(fn, {str(i): self.ev(p) for i, p in enumerate(pos)} | {k: self.ev(v) for k, v in kw})
        f = getattr(self, "f_" + fn.replace(".", "_"), None)
        if f is not None:
            return f(pos, dict(kw))
        if fn in NPF:
            return NPF[fn](*[self.n(p) for p in pos])
        if fn.startswith("str."):
            s = self.ev(pos[0])
            if not isinstance(s, str):
                raise Unknown(fn)
            return getattr(s, fn[4:])(*[self.ev(p) for p in pos[1:]])
        if fn.startswith("exception:"):
            return Key(fn)
        raise Unknown("fn " + fn)

    over = {}

    def jacobian(self, pos):
        """some matrix determined by the callback's result as a function of its argument, and the point"""
        x0 = np.asarray(self.n(pos[1]), dtype=float).reshape(-1)
        sub = EvalN(self.pt)
        sub.env, sub.envver = dict(self.env), self.envver
        sub.over = {**self.over, "x@jac": np.array([x + 0.01 * math.sin(i + x) for i, x in enumerate(x0)])}
        r = np.asarray(sub.n(pos[0])).reshape(-1)
        if not np.all(np.isfinite(r)):
            raise EvalError("jacobian of non-finite residuals")
        j = np.array([[math.sin(3.7 * v + 1.3 * k + 0.5 * i * k) for k in range(len(x0))] for i, v in enumerate(r)]).reshape(len(r), len(x0))
        if len(x0) and h01("jac0", self.pt.seed) < 0.2:
            j[:, -1] = 0
        elif len(x0) > 1 and h01("jacdup", self.pt.seed) < 0.3:
            j[:, -1] = j[:, 0]
        if h01("jacscale", self.pt.seed) < 0.4:
            j = j * 10.0 ** (int(13 * h01("jacpower", self.pt.seed)) - 6)
        return j

    def f_pi(self, p, k):
        return math.pi

    def f_eps(self, p, k):
        return float(np.finfo(float).eps)

    def f_len(self, p, k):
        v = self.ev(p[0])
        if isinstance(v, DF):
            return v.n
        if isinstance(v, (Key, SymMap)):
            raise Unknown("len")
        return len(v)

    def f_T(self, p, k):
        v = self.n(p[0])
        return np.transpose(v)

    def red(self, p, k, f):
        v = self.n(p[0])
        ax = k.get("axis")
        return f(np.asarray(v), axis=None if ax is None else self.ev(ax))

    def f_sum(self, p, k):
        return self.red(p, k, np.sum)

    def f_mean(self, p, k):
        return self.red(p, k, np.mean)

    def f_median(self, p, k):
        return self.red(p, k, np.median)

    def f_prod(self, p, k):
        return self.red(p, k, np.prod)

    def f_min(self, p, k):
        return self.red(p, k, np.min)

    def f_max(self, p, k):
        return self.red(p, k, np.max)

    def f_std(self, p, k):
        return self.red(p, k, np.std)

    def f_var(self, p, k):
        return self.red(p, k, np.var)

    def f_any(self, p, k):
        return bool(np.any(self.n(p[0]))) if not k else self.red(p, k, np.any)

    def f_all(self, p, k):
        return bool(np.all(self.n(p[0]))) if not k else self.red(p, k, np.all)

    def f_argmin(self, p, k):
        return self.red(p, k, np.argmin)

    def f_argmax(self, p, k):
        return self.red(p, k, np.argmax)

    def f_count(self, p, k):
        return int(np.count_nonzero(self.n(p[0])))

    def f_full(self, p, k):
        n = self.integer(p[0])
        v = self.ev(p[1])
        if v is None or isinstance(v, (str, Key)):
            return [v] * int(n)
        v = arrify(v)
        if isinstance(v, int) and not isinstance(v, bool):
            v = float(v)
        if isinstance(v, np.ndarray) and v.ndim:
            return np.full((int(n),) + v.shape, v)
        return np.full(int(n), v)

    def f_full2(self, p, k):
        v = self.n(p[2])
        return np.full((int(self.integer(p[0])), int(self.integer(p[1]))), float(v) if isinstance(v, int) and not isinstance(v, bool) else v)

    def f_fullshape(self, p, k):
        v = self.n(p[1])
        s = self.ev(p[0])
        return np.full(tuple(int(x) for x in s) if isinstance(s, (list, tuple, np.ndarray)) else int(s), float(v) if isinstance(v, int) and not isinstance(v, bool) else v)

    def f_full_like_dtype(self, p, k):
        n = int(self.integer(p[0]))
        root = self.n(p[2])
        return np.full(n, self.n(p[1])).astype(np.asarray(root).dtype)

    def f_zeros_like(self, p, k):
        return np.zeros_like(self.n(p[0]))

    def f_ones_like(self, p, k):
        return np.ones_like(self.n(p[0]))

    def f_trues_like(self, p, k):
        return np.ones_like(self.n(p[0]), dtype=bool)

    def f_fill(self, p, k):
        b, v = self.n(p[0]), self.n(p[1])
        c = np.array(b)
        if np.iscomplexobj(v) and not np.iscomplexobj(c):
            c = c.astype(complex)
        c[...] = v
        return c

    def f_cast(self, p, k):
        return self.n(p[0])

    def f_tofloat(self, p, k):
        v = self.n(p[0])
        a = np.asarray(v)
        r = a.astype(complex if a.dtype.kind == "c" else float)
        return r if r.ndim else r[()]

    def f_float(self, p, k):
        v = self.ev(p[0])
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise Raised("float of string")
        v = arrify(v)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise EvalError("float of array")
            v = v.reshape(-1)[0]
        return float(v)

    def f_int(self, p, k):
        v = self.ev(p[0])
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise EvalError("int of string")
        return int(arrify(v))

    def f_toint(self, p, k):
        v = np.asarray(self.n(p[0]))
        r = np.trunc(v.real if v.dtype.kind == "c" else v)
        r = np.where(np.isfinite(r), r, 0).astype(int)
        return r if r.ndim else int(r)

    def f_setimag(self, p, k):
        return self.n(p[0]).real + 1j * np.asarray(self.n(p[1]))

    def f_setreal(self, p, k):
        return self.n(p[1]) + 1j * np.asarray(self.n(p[0])).imag

    def f_linspace(self, p, k):
        a, b, n = [self.n(x) for x in p[:3]]
        return np.linspace(a, b, int(n), endpoint=bool(self.ev(k["endpoint"])) if "endpoint" in k else True)

    def f_firsts(self, p, k):
        seen, out = set(), []
        for row in zip(*[np.asarray(self.n(x)).tolist() for x in p]):
            out.append(row not in seen)
            seen.add(row)
        return np.array(out, dtype=bool)

    def f_unique(self, p, k):
        return np.unique(self.n(p[0]))

    def f_uniq(self, p, k):
        out = []
        for x in self.ev(p[0]):
            if not any(x is y or (isinstance(x, Key) and x == y) for y in out):
                out.append(x)
        return out

    def f_vals(self, p, k):
        s, m = self.ev(p[0]), self.ev(p[1])
        return np.array([float(m.get(x)) for x in s])

    def f_storeall(self, p, k):
        m, ks, vs = self.ev(p[0]), self.ev(p[1]), self.ev(p[2])
        for x, v in zip(ks, vs):
            m = m.set(x, v)
        return m

    def f_nonzero(self, p, k):
        v = np.nonzero(self.n(p[0]))
        return v[0] if len(v) == 1 else list(v)

    def f_flatnonzero(self, p, k):
        return np.flatnonzero(self.n(p[0]))

    def f_ravel(self, p, k):
        return np.ravel(self.n(p[0]))

    def f_reshape(self, p, k):
        v = self.n(p[0])
        s = self.ev(p[1])
        return np.reshape(v, tuple(int(x) for x in s) if isinstance(s, (list, tuple, np.ndarray)) else int(s))

    def f_squeeze(self, p, k):
        return np.squeeze(self.n(p[0]))

    def f_row2d(self, p, k):
        return np.atleast_2d(self.n(p[0]))

    def f_size(self, p, k):
        v = self.ev(p[0])
        return int(np.size(arrify(v)))

    def f_ndim(self, p, k):
        return int(np.ndim(self.n(p[0])))

    def f_shape(self, p, k):
        return list(np.shape(self.n(p[0])))

    def f_ncols(self, p, k):
        return int(np.shape(self.n(p[0]))[1])

    def f_broadcast_to(self, p, k):
        s = self.ev(p[1])
        return np.array(np.broadcast_to(self.n(p[0]), tuple(int(x) for x in s) if isinstance(s, (list, np.ndarray)) else int(s)))

    def f_sort(self, p, k):
        v = self.ev(p[0])
        return np.sort(arrify(v), axis=0 if np.ndim(arrify(v)) == 1 else -1)

    def f_rowsof(self, p, k):
        xs = [arrify(x) for x in self.ev(p[0])]
        if not xs:
            raise EvalError("nothing to concatenate")
        return np.concatenate(xs)

    def f_sorted(self, p, k):
        v = self.ev(p[0])
        v = list(v) if not isinstance(v, dict) else list(v)
        try:
            return sorted(v, reverse=bool(self.ev(k["reverse"])) if "reverse" in k else False)
        except TypeError:
            raise Unknown("order of objects")

    def f_sortby(self, p, k):
        v, ks = list(self.ev(p[0])), list(self.ev(p[1]))
        try:
            o = sorted(range(len(v)), key=lambda i: ks[i], reverse=bool(self.ev(k["reverse"])) if "reverse" in k else False)
        except (TypeError, ValueError):
            raise Unknown("order of objects")
        return [v[i] for i in o]

    def f_lexsort(self, p, k):
        return np.lexsort([self_ for self_ in np.asarray(self.n(p[0]))])

    def f_unique_index(self, p, k):
        return np.unique(self.n(p[0]), return_index=True)[1]

    def f_unique_inverse(self, p, k):
        return np.unique(self.n(p[0]), return_inverse=True)[1]

    def f_unique_counts(self, p, k):
        return np.unique(self.n(p[0]), return_counts=True)[1]

    def f_intdtype(self, p, k):
        return np.array([0])

    def f_id(self, p, k):
        v = self.ev(p[0])
        return hsh("id", v if isinstance(v, str) else repr(v)) % 10 ** 9

    def f_argsort(self, p, k):
        return np.argsort(self.n(p[0]), kind="stable")

    def f_round(self, p, k):
        v = self.n(p[0])
        return np.round(v, int(self.n(p[1]))) if len(p) > 1 else np.round(v)

    def f_searchsorted(self, p, k):
        return np.searchsorted(self.n(p[0]), self.n(p[1]), **{a: self.ev(v) for a, v in k.items()})

    def f_interp(self, p, k):
        x, xp, fp = [self.n(q) for q in p[:3]]
        kk = {a: self.ev(v) for a, v in k.items()}
        return np.interp(x, xp, fp, **kk)

    def f_diagonal(self, p, k):
        return np.diagonal(self.n(p[0]))

    def f_dot(self, p, k):
        x, y = self.n(p[0]), self.n(p[1])
        if np.ndim(x) > 2 or np.ndim(y) > 2:
            raise Unknown("product of stacks of matrices")
        return np.dot(x, y)

    def f_hilbert(self, p, k):
        v = self.n(p[0])
        import numpy.fft as ft
        n = len(v)
        if n == 0:
            raise EvalError("hilbert")
        fr = ft.fftfreq(n)
        return -np.real(ft.ifft(-1j * np.sign(fr) * ft.fft(v)))

    def f_outer(self, p, k):
        return np.outer(self.n(p[0]), self.n(p[1]))

    def f_allclose(self, p, k):
        return bool(np.allclose(self.n(p[0]), self.n(p[1]), **{a: self.ev(v) for a, v in k.items()}))

    def f_isclose(self, p, k):
        return np.isclose(self.n(p[0]), self.n(p[1]), **{a: self.ev(v) for a, v in k.items()})

    def f_array_equal(self, p, k):
        return bool(np.array_equal(self.n(p[0]), self.n(p[1])))

    def f_isin(self, p, k):
        return np.isin(self.n(p[0]), self.n(p[1]))

    def f_set(self, p, k):
        v = self.ev(p[0]) if p else []
        d = {}
        for x in v:
            d.setdefault(self.hk(x), x)
        return [d[x] for x in sorted(d, key=repr)]

    def f_keys(self, p, k):
        return list(self.ev(p[0]).keys())

    def f_values(self, p, k):
        return list(self.ev(p[0]).values())

    def f_strcat(self, p, k):
        out = ""
        for q in p:
            v = self.ev(q)
            if not isinstance(v, str):
                raise EvalError("strcat")
            out += v
        return out

    def f_str(self, p, k):
        v = self.ev(p[0])
        if isinstance(v, str):
            return v
        if isinstance(v, Key):
            return "str:" + v.name
        if v is None or isinstance(v, (bool, np.bool_)):
            return str(v)
        if isinstance(v, (int, float, np.number)):
            v = float(v.real)
            return str(int(v)) if np.isfinite(v) and v == int(v) and abs(v) < 1e15 else "num:%.8g" % v
        raise Unknown("str")

    def f_partext(self, p, k):
        v = self.ev(p[0])
        return "pars:" + "|".join(getattr(x, "name", "?") for x in v)

    def f_fmt(self, p, k):
        return "fmt:" + self.f_str(p, k) + str(self.ev(p[1]))

    def f_strfmt(self, p, k):
        s = self.ev(p[0])
        return "strfmt:" + s + "|" + "|".join(self.f_str([q], {}) for q in p[1:])

    def f_handle(self, p, k):
        return Rec("handle", {"src": self.ev(p[0])})

    def f_startswith(self, p, k):
        s, q = self.ev(p[0]), self.ev(p[1])
        return s.startswith(tuple(q) if isinstance(q, list) else q)

    def f_endswith(self, p, k):
        s, q = self.ev(p[0]), self.ev(p[1])
        return s.endswith(tuple(q) if isinstance(q, list) else q)

    def f_is_parameter(self, p, k):
        v = self.ev(p[0])
        return h01(self.pt.seed, "isparam", repr(v)) < 0.5

    def f_isscalar(self, p, k):
        v = self.ev(p[0])
        return not isinstance(v, (np.ndarray, list, dict))

    def f_callable(self, p, k):
        v = self.ev(p[0])
        if v is None:
            return False
        return h01(self.pt.seed, "callable", repr(v)) < 0.5

    def f_copy(self, p, k):
        return self.n(p[0])

    f_astype = f_copy

    def f_object(self, p, k):
        return Key("object")

    # pandas
    def frame(self, v):
        if isinstance(v, DF):
            return v
        if isinstance(v, dict):
            n = 0
            for c in v.values():
                n = len(c)
                break
            return DF(n, lambda c: (_ for _ in ()).throw(EvalError("column")), None, dict(v))
        raise Unknown("frame")

    def f_col(self, p, k):
        return self.frame(self.ev(p[0])).col(self.ev(p[1]))

    def f_rows(self, p, k):
        return self.frame(self.ev(p[0])).rows(self.index(p[1]))

    def f_reset_index(self, p, k):
        return self.ev(p[0])

    def f_cols(self, p, k):
        return self.ev(p[0])

    def f_row(self, p, k):
        df = self.frame(self.ev(p[0]))
        i = int(self.ev(p[1]))
        return DF(1, lambda c: np.asarray(df.col(c))[i])

    def f_read_csv(self, p, k):
        src = self.ev(p[0])
        if isinstance(src, list) and all(isinstance(x, str) for x in src) and not (set(k) - {"sep", "skiprows", "nrows", "header"}):
            return self.csv_text(src, {q: self.ev(v) for q, v in k.items()}, "header" in k)
        ident = ("csv", round(smooth("csv", [self.ev(q) for q in p] + [self.ev(k[x]) for x in sorted(k)]), 6), tuple(sorted(k)))
        return self.pt.frame(ident)

    def csv_text(self, lines, k, hdr):
        """columns of sample text: by name of the header line, or by position"""
        skip = k.get("skiprows", 0)
        rows = [x for i, x in enumerate(lines) if (i >= skip if isinstance(skip, (int, float)) else i not in [int(j) for j in skip])]
        rows = [x.rstrip("\n") for x in rows if x.strip()]
        cells = [x.split(k.get("sep", ",")) for x in rows]
        n = k.get("nrows")
        n = None if n is None else int(n)

        def conv(x):
            try:
                return float(x)
            except ValueError:
                raise EvalError("text column")

        def colf(c):
            if str(c).startswith("#") and str(c)[1:].isdigit():
                return np.array([conv(r[int(c[1:])]) for r in (cells if n is None else cells[:n])])
            if not cells or c not in cells[0]:
                raise Raised("column " + str(c))
            j = cells[0].index(c)
            body = cells[1:] if n is None else cells[1:1 + n]
            if any(len(r) <= j for r in body):
                raise EvalError("short row")
            return np.array([conv(r[j]) for r in body])
        m = max(len(cells) - (1 if cells and not all(self.isnum(x) for x in cells[0] if x) else 0), 0)
        return DF(m if n is None else min(m, n), colf)

    @staticmethod
    def isnum(x):
        try:
            float(x)
            return True
        except ValueError:
            return False

    def f_csvcol(self, p, k):
        return self.frame(self.ev(p[0])).col("#%d" % self.ev(p[1]))

    def f_dropna(self, p, k):
        df = self.frame(self.ev(p[0]))
        tag = repr(sorted((q, repr(self.ev(v))) for q, v in k.items()))
        keep = np.array([h01(self.pt.seed, "dropna", i, df.n, tag) < 0.8 for i in range(df.n)], dtype=bool)
        return df.rows(keep)

    def groups(self, kc, k):
        cols = [np.asarray(c) for c in kc]
        rows = list(zip(*[c.tolist() for c in cols]))
        if set(k) - {"sort"}:
            raise Unknown("groupby options")
        return (sorted(set(rows)) if "sort" not in k or self.ev(k["sort"]) else list(dict.fromkeys(rows))), rows

    def f_gkey(self, p, k):
        u, _ = self.groups(self.ev(p[0]), k)
        j = int(self.ev(p[1]))
        return np.array([x[j] for x in u])

    def f_gagg(self, p, k):
        u, rows = self.groups(self.ev(p[0]), k)
        v = np.asarray(self.n(p[1]))
        if len(v) != len(rows):
            raise EvalError("gmean")
        how = {"mean": np.mean, "median": np.median, "sum": np.sum, "min": np.min, "max": np.max,
               "first": lambda x: x[0], "last": lambda x: x[-1], "std": lambda x: np.std(x, ddof=1) if len(x) > 1 else np.nan}[self.ev(p[2])]
        return np.array([how([v[i] for i, r in enumerate(rows) if r == x]) for x in u])

    def f_arange(self, p, k):
        return np.arange(*[self.ev(q) for q in p])

    def f_dropdup(self, p, k):
        v = np.asarray(self.ev(p[0]))
        out = []
        for x in v.tolist():
            if x not in out:
                out.append(x)
        return np.array(out)

    def f_dropdup_keep(self, p, k):
        v = np.asarray(self.ev(p[0])).tolist()
        keep = self.ev(p[1])
        if keep == "last":
            return np.array([x for i, x in enumerate(v) if x not in v[i + 1:]])
        if keep is False:
            return np.array([x for x in v if v.count(x) == 1])
        raise Unknown("keep")

    def f_dfindex(self, p, k):
        raise Unknown("row labels")

    def f_sort_values(self, p, k):
        df = self.frame(self.ev(p[0]))
        by = self.ev(p[1] if len(p) > 1 else k["by"])
        return df.rows(np.argsort(np.asarray(df.col(by)), kind="stable"))

    def f_lines(self, p, k):
        v = self.ev(p[0])
        r = random.Random(hsh(self.pt.seed, "lines", repr(v)))
        if isinstance(v, str) and v in TEXTS:
            return TEXTS[v](r)
        return [Key(f"line{i}@{v!r}") for i in range(r.choice([3, 4, 5, 6]))]

    def f_loadtxt(self, p, k):
        src = [self.ev(q) for q in p] + [self.ev(k[x]) for x in sorted(k)]
        if src and isinstance(src[0], str) and src[0] in TEXTS:
            src[0] = self.f_lines(p, {})
        if src and isinstance(src[0], (list, tuple)) and all(isinstance(x, str) for x in src[0]) and set(k) <= {"skiprows", "delimiter", "comments"}:
            o = {x: self.ev(k[x]) for x in k}
            rows = []
            for line in list(src[0])[int(o.get("skiprows", 0)):]:
                line = line.split(o.get("comments", "#"))[0].rstrip("\r\n")
                if line.strip():
                    try:
                        rows.append([float(x) for x in line.split(o.get("delimiter"))])
                    except ValueError:
                        raise Raised("loadtxt: text")
            if not rows or len({len(x) for x in rows}) > 1:
                raise EvalError("loadtxt: ragged")
            return np.squeeze(np.array(rows))
        return uf(self.pt, "loadtxt" + "".join(sorted(k)), "arr2", src)

    def f_tobytes(self, p, k):
        return np.ascontiguousarray(self.n(p[0])).tobytes()

    def f_hash(self, p, k):
        return hsh("hash", repr(self.ev(p[0])))

    def f_basename(self, p, k):
        import os
        return os.path.basename(self.ev(p[0]))

    def f_pathjoin(self, p, k):
        return "/".join(str(self.ev(q)) for q in p)

    def f_jac(self, p, k):
        return uf(self.pt, "jac", "arr2", [self.ev(q) for q in p])

    def f_caught(self, p, k):
        return Key("caught")

    def f_type(self, p, k):
        v = self.ev(p[0])
        return Key("type:" + type(v).__name__)


class Poison:
    def __init__(self, e):
        self.e = e


def _noPoison(f):
    def g(self, t):
        v = f(self, t)
        if isinstance(v, Poison):
            raise v.e
        return v
    return g


EvalN.ev = _noPoison(EvalN.ev)


def _sc(f):
    return lambda x: f(np.asarray(x))[()]


def coarse(x, q=4096):
    """single precision, exaggerated so that losing digits shows"""
    x = np.asarray(x)
    if x.dtype.kind == "c":
        return coarse(x.real, q) + 1j * coarse(x.imag, q)
    m, e = np.frexp(x.astype(float))
    return np.ldexp(np.round(m * q) / q, e)[()]


NPF = {n: getattr(np, n) for n in
       "exp log log10 log2 log1p expm1 cos sin tan arctan arcsin arccos abs real imag isnan isfinite isinf conj angle "
       "minimum maximum heaviside sign arctan2 hypot rint floor ceil sinh cosh tanh logical_and logical_or logical_not logical_xor "
       "trunc arctanh arcsinh arccosh float32 cumsum flip fliplr diff sqrt".split()}
NPF["float32"] = coarse
NPF["float16"] = lambda x: coarse(x, 64)
NPF["mod"] = np.mod
NPF["floordiv"] = np.floor_divide
from numpy.lib import scimath as _sm
NPF["sc_arcsin"] = _sm.arcsin
NPF["sc_arccos"] = _sm.arccos
NPF["sc_sqrt"] = _sm.sqrt
NPF["sc_log"] = _sm.log
NPF["inv"] = np.linalg.inv

# A complex number on a branch cut: which side it falls on is rounding, and rewriting the
# expression may change it.  One side is chosen for a whole evaluation, and a difference
# counts only if it remains whatever the sides.
CUT, CUTSEEN = {}, set()


def cut(z, where, kind):
    if not isinstance(z, (complex, np.complexfloating)) and not (isinstance(z, np.ndarray) and z.dtype.kind == "c"):
        return z
    z = np.asarray(z)
    with np.errstate(all="ignore"):
        on = (np.abs(z.imag) <= 1e-7 * np.abs(z)) & where(z.real)
    if on.any():
        CUTSEEN.add(kind)
        z = z.copy()
        z.imag = np.where(on, np.copysign(z.imag, CUT.get(kind, 1.0)), z.imag)
    return z[()]


for _n, _w in [("angle", lambda x: x < 0), ("sqrt", lambda x: x < 0), ("log", lambda x: x < 0), ("log10", lambda x: x < 0),
               ("log2", lambda x: x < 0), ("arcsin", lambda x: abs(x) > 1), ("arccos", lambda x: abs(x) > 1)]:
    for _p in ("", "sc_"):
        if _p + _n in NPF:
            NPF[_p + _n] = (lambda f, w, n: lambda z: f(cut(z, w, n)))(NPF[_p + _n], _w, _n)


def sides(a, b, mk):
    """do a and b differ at the point whichever side of the branch cuts is taken?"""
    kinds = sorted(CUTSEEN)[:3]
    vals = []
    try:
        for t in (a, b):
            vs = []
            for ss in itertools.product((1.0, -1.0), repeat=len(kinds)):
                CUT.clear()
                CUT.update(zip(kinds, ss))
                try:
                    vs.append(EvalN(mk()).ev(t))
                except Raised as e:
                    vs.append(e)
            vals.append(vs)
    finally:
        CUT.clear()
    return not any(same(x, y) for x in vals[0] for y in vals[1])


def noisy(t, v, mk):
    """is the value a matter of rounding: does any change of the inputs in the twelfth digit change it?"""
    if isinstance(v, Raised):
        return False
    for w in (1e-12, -1e-12):
        pt = mk()
        pt.wobble = w
        try:
            if same(EvalN(pt).ev(t), v):
                return False
        except (Raised, Unknown, EvalError, RecursionError):
            return False
    return True


NUMS = (int, float, complex, np.number)
CLOSE = {"isclose", "allclose", "round", "rint", "float32", "float16", "toint", "int", "floordiv"}
NANS = {"isnan", "isfinite", "isinf"}
TRUTH = {"truthy", "truth"}


def novel_floats(a, b):
    """infinities and NaNs only one of the two graphs mentions"""
    def fl(t):
        return {z.args[0] for z in subterms(t) if z.op == "const" and isinstance(z.args[0], tuple)}
    return fl(a) ^ fl(b)


def distinguish(a, b, budget=160, seed=1, need=2, ctx=None):
    """-> (hits, points evaluated, points useless, witness)"""
    pools = pools_of([a, b])
    hits, ok, bad, wit, why = 0, 0, 0, None, {}
    novel = novel_of(a, b)
    focus = [v for v in novel if abs(v) < 1e7] or pools
    if len(novel) <= 6:                            # a bound moved a little
        focus = focus + [(v + w) / 2 for v in novel for w in pools if 0 < abs(v - w) < 0.02 * abs(v)]
    if novel and len(novel) <= 6:                  # a bound on a quantity in other units (nm, um)
        focus = focus * 2 + [v * f for v in focus for f in (1000.0, 0.001) if 1e-9 < abs(v * f) < 1e7]
    fa, fb = (frozenset(x.args[0] if x.op == "app" else x.op for x in subterms(t)) for t in (a, b))
    more = ()
    if (fa ^ fb) & TRUTH:
        focus = focus + [0.0] * (1 + len(focus) // 4)
    words = words_of(a, b)
    if focus or words:
        more = (5, 5, 5, 4)
    if (fa ^ fb) & CLOSE or any(0 < abs(v) < 0.05 for v in novel):
        more += (6, 6)
    if (fa ^ fb) & NANS:
        more += (7, 7)
    if (fa ^ fb) & NANS or any(abs(v) >= 1e5 for v in novel) or "float" in str(novel_floats(a, b)):
        more += (3, 3)
    for k in range(budget + (budget * 3 // 4 if more else 0)):
        mode = (0, 1, 0, 3, 0, 1, 3, 2)[k % 8] if k < budget else more[k % len(more)]
        def mk():
            p = Point(hsh(seed, k), pools if mode < 4 else focus, mode)
            p.words = words
            p.novel = bool(novel)
            return p
        pt = mk()
        E = EvalN(pt)
        CUTSEEN.clear()
        try:
            try:
                va = E.ev(a)
            except Raised as e:
                va = e
            vb = E.ev(b)
            if isinstance(va, Raised) and vb is None:
                raise va
        except (Unknown, EvalError) as e:
            bad += 1
            s = f"{type(e).__name__}: {e}"[:90]
            why[s] = why.get(s, 0) + 1
            continue
        except RecursionError:
            bad += 1
            continue
        ok += 1
        if not same(va, vb):
            if mode in (4, 5, 6) and overflown(va, vb):
                continue
            if CUTSEEN and not sides(a, b, mk):
                continue
            if noisy(a, va, mk) and noisy(b, vb, mk):
                continue
            hits += 1
            if wit is None:
                wit = (dict(pt.syms), va, vb, E)
            if hits >= need:
                break
    return hits, ok, bad, wit, why


def _kids(t):
    out = []
    for x in t.args:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out.append(y)
                elif isinstance(y, tuple):
                    out.extend(z for z in y if isinstance(z, T))
    return out


def blame(a, b, E):
    """descend to the deepest corresponding nodes that differ at the witness;
    -> (node of the code, node of the reference, source constructs met, deepest first)"""
    trail = []

    def val(t):
        try:
            return E.ev(t)
        except Exception:
            return None

    def peel(t):
        for _ in range(200):
            if t.op != "ite":
                break
            c = val(t.args[0])
            if c is None or isinstance(c, np.ndarray):
                break
            if t.src:
                trail.append(t.src)
            t = t.args[1] if c else t.args[2]
        return t
    for _ in range(300):
        a, b = peel(a), peel(b)
        if a.src:
            trail.append(a.src)
        ka, kb = _kids(a), _kids(b)
        if a.op != b.op or len(ka) != len(kb) or a.op in ("map", "bigsum", "exists", "flat", "dictmap", "loopval"):
            break
        nxt = None
        for x, y in zip(ka, kb):
            if x is y:
                continue
            vx, vy = val(x), val(y)
            if vx is None or vy is None:
                continue
            try:
                if not same(vx, vy):
                    nxt = (x, y)
                    break
            except Exception:
                continue
        if nxt is None:
            break
        a, b = nxt
    if a.op in ("map", "bigsum", "loopval", "list", "concat", "record", "sym", "const") or not a.src:
        for x in subterms(a):
            if x.src:
                trail.append(x.src)
                break
    seen, out = set(), []
    for s in reversed(trail):
        if s not in seen:
            seen.add(s)
            out.append(s)
    return a, b, out
