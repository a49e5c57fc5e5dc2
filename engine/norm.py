"""Array and container algebra: normalising constructors for reads/updates.

Everything here is a rewrite that holds for every value of the operands (for
numpy arrays under the usual broadcasting rules), so two graphs that normalise
to the same node denote the same value.
"""
from .terms import *

FULL = mk("slice", NONE, NONE, NONE)
ELL = mk("const", Ellipsis)
REV = mk("slice", NONE, NONE, num(-1))

# numpy functions applied entry by entry
ELEMENTWISE = {"sqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "cos", "sin", "tan", "arctan", "arcsin",
               "arccos", "sc_arcsin", "sc_sqrt", "sc_arccos", "abs", "real", "imag", "isnan", "isfinite", "isinf", "conj",
               "angle", "mod", "minimum", "maximum", "heaviside", "sign", "setimag", "setreal", "arctan2", "hypot",
               "round", "rint", "floor", "ceil", "sinh", "cosh", "tanh", "logical_and", "logical_or", "logical_not",
               "float32", "astype", "floordiv"}
ELEMOPS = {"add", "neg", "mul", "div", "pow", "where", "lt", "le", "eq", "not", "and"}
REDUCE = {"sum", "any", "all", "len", "mean", "median", "min", "max", "dot", "prod", "std", "var", "argmin", "argmax"}

# functions of numpy without a model of their own: values determined by the values of the operands
PURE_NP = {"roll": 1, "unwrap": 1, "cumprod": 1, "gradient": 1, "nancumsum": 1, "ptp": 0, "nanmean": 0, "nanmin": 0, "nanmax": 0,
           "nanmedian": 0, "percentile": 0, "quantile": 0, "trapz": 0, "trapezoid": 0, "vdot": 0, "digitize": 1, "einsum": None,
           "fmod": "e", "fmin": "e", "fmax": "e", "copysign": "e", "cbrt": "e", "sinc": "e", "nextafter": "e", "logaddexp": "e",
           "signbit": "e", "kron": None, "matmul": None, "inner": None, "polyval": None, "convolve": 1,
           "ediff1d": 1, "setdiff1d": "v", "union1d": "v", "intersect1d": "v", "rot90": 1, "bincount": "v", "real_if_close": 1, "trim_zeros": "v",
           "triu": 1, "tril": 1, "cross": None, "pad": 1, "compress": None, "extract": "v", "choose": None, "select": None, "split": None, "array_split": None}

KIND_RANK = {"real": 0, "posreal": 0, "int": 0, "num": 0, "cplx": 0, "bool": 0, "arr": 1, "carr": 1, "barr": 1,
             "arr2": 2, "carr2": 2, "posarr": 1}

IDXDOM = {}       # idx node id -> its domain
MU_RANK = {}      # mu node id -> rank, where the initial value does not tell
MU_INIT = {}      # mu node id -> initial value node (for rank inference)


def rank(t):
    """array rank if statically known, else None"""
    r = _RANK.get(t.id, "?")
    if r == "?":
        _RANK[t.id] = None
        r = _rank(t)
        _RANK[t.id] = r
    return r


_RANK = {}


def _mx(ts):
    r = 0
    for t in ts:
        q = rank(t)
        if q is None:
            return None
        r = max(r, q)
    return r


def _rank(t):
    op, a = t.op, t.args
    if op == "const":
        return 0 if (isinstance(a[0], (Fraction, bool)) or (isinstance(a[0], tuple) and a[0] and a[0][0] == "float")) else None
    if op in ("imag_unit", "idx"):
        return 0
    if op == "sym":
        return KIND_RANK.get(a[1])
    if op in ELEMOPS:
        return _mx(a)
    if op == "ite":
        p, q = rank(a[1]), rank(a[2])
        if p == q:
            return p
        if a[1].op == "unbound":
            return q
        if a[2].op == "unbound":
            return p
        return None
    if op == "app":
        fn, pos, kw = a
        if fn in ELEMENTWISE:
            return _mx(pos)
        if fn in ("pi", "eps", "len", "ncols", "dot", "truth", "inf"):
            return 0
        if fn in REDUCE:
            if any(k == "axis" for k, _ in kw):
                r = rank(pos[0])
                return None if r is None else max(r - 1, 0)
            return 0
        if fn in ("interp", "zeros_like", "ones_like", "sort", "cumsum", "clip", "hilbert", "astype", "copy", "flip", "tofloat"):
            return rank(pos[0])
        if fn in ("linspace", "vals", "arange", "unique", "diagonal", "flatnonzero", "nonzero"):
            return 1
        if fn == "T":
            return rank(pos[0])
        if fn in ("float", "int", "toint", "readfloat"):
            return 0
        if fn == "full":
            return 1
        if fn in ("zeros", "ones", "empty"):
            s = pos[0]
            if s.op == "list":
                return len(s.args)
            return 1 if rank(s) == 0 else None
        if fn in ("loadtxt", "full2", "outer"):
            return 2
        if fn in ("full_like_dtype", "cast", "fill", "argsort", "row2d"):
            return rank(pos[0]) if fn != "row2d" else 2
        if fn in ("gagg", "gkey", "col", "csvcol", "probe", "dfindex", "dropdup", "dropdup_keep", "firsts"):
            return 1
        if isinstance(fn, str) and fn.startswith("np:"):
            k = PURE_NP.get(fn[3:])
            if k == "e":
                return _mx(pos)
            if k == "v":
                return 1
            if k == 1:
                return rank(pos[0])
            return 0 if k == 0 and not kw and len(pos) <= 2 else None
        if isinstance(fn, str) and fn.startswith("u:"):
            return KIND_RANK.get(fn.split(":")[2])
        return None
    if op == "flat":
        return rank(a[2])
    if op == "exists":
        return 0
    if op == "getitem":
        if a[0].op == "sym" and str(a[0].args[0]).startswith("F."):
            return 0 if a[0].args[0] in ("F.value",) else None
        return _rank_get(rank(a[0]), a[1])
    if op == "setitem":
        return rank(a[0])
    if op in ("list",):
        if not a:
            return 1
        q = [rank(x) for x in a]
        if any(x is None for x in q):
            return None
        return 1 + max(q)
    if op == "concat":
        for x in a:
            q = rank(x)
            if q is not None:
                return q
        return None
    if op == "map":
        q = rank(a[2])
        return None if q is None else q + 1
    if op == "bigsum":
        return rank(a[2])
    if op == "mu":
        if t.id in MU_RANK:
            return MU_RANK[t.id]
        i = MU_INIT.get(t.id)
        return rank(i) if i is not None and not emptylist(i) else None
    if op == "loopval":
        m = a[0].args[2][a[1]]
        if m.id in MU_RANK:
            return MU_RANK[m.id]
        i = a[0].args[3][a[1]]
        return None if emptylist(i) else rank(i)
    return None


def emptylist(i):
    """a list which is yet to be filled: with numbers, rows, anything"""
    if i.op == "ite":
        return emptylist(i.args[1]) or emptylist(i.args[2])
    return i.op == "list" and not i.args


def _rank_get(r, i):
    if r is None:
        return None
    items = i.args if i.op == "idxt" else (i,)
    out = r
    for x in items:
        if x is NONE:
            out += 1
        elif x.op == "slice" or x is ELL:
            pass
        elif is_maskish(x):
            pass
        else:
            q = rank(x)
            if q is None:
                return None
            if q == 0:
                out -= 1
    return out if out >= 0 else None


def lst(*xs):
    return mk("list", *xs)


def is_maskish(i):
    return mask_of(i) is not None


def canon_idx(i):
    if i.op == "idxt":
        items = [canon1(x) for x in i.args]
        # a leading ellipsis on two dimensional data is a full slice
        if items and items[0] is ELL and len(items) == 2:
            items[0] = FULL
        while len(items) > 1 and (items[-1] is FULL or items[-1] is ELL):
            items.pop()
        if len(items) == 1:
            return canon_idx(items[0])
        return mk("idxt", *items)
    return canon1(i)


def canon1(i):
    if i is ELL:
        return FULL
    if i.op == "app" and i.args[0] in ("nonzero", "flatnonzero") and len(i.args[1]) == 1:
        return i.args[1][0]
    if i.op == "slice":
        a, b, c = i.args
        if as_int(a) == 0:
            a = NONE
        if as_int(c) == 1:
            c = NONE
        return mk("slice", a, b, c)
    return i


def is_mask(i):
    if i.op in ("lt", "le", "eq", "not", "and"):
        return True
    if i.op == "app" and i.args[0] in ("isnan", "isfinite", "isinf", "logical_and", "logical_or", "logical_not"):
        return True
    if i.op == "sym" and i.args[1] == "barr":
        return True
    return False


def mask_of(i):
    if i.op == "app" and i.args[0] in ("nonzero", "flatnonzero") and len(i.args[1]) == 1:
        return i.args[1][0]
    if is_mask(i):
        return i
    return None


def linear(t):
    """t as (base node or None, integer offset)"""
    k = as_int(t)
    if k is not None:
        return None, k
    if t.op == "add":
        for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            k = as_int(y)
            if k is not None:
                b, o = linear(x)
                return (b, o + k) if b is not None else (None, o + k)
    return t, 0


def disjoint(i, j):
    if i.op in ("const", "add", "idx", "sym") and j.op in ("const", "add", "idx", "sym"):
        if is_str(i) and is_str(j):
            return cval(i) != cval(j)
        if is_const(i) and is_const(j) and not (is_num(i) and is_num(j)):
            return i is not j
        a, p = linear(i)
        b, q = linear(j)
        if a is b and a is None:
            return p != q and (p >= 0) == (q >= 0)
        if a is b:
            return p != q
        return False
    if i.op == j.op and i.op in ("idxt", "list") and len(i.args) == len(j.args):
        return any(disjoint(p, q) for p, q in zip(i.args, j.args))
    if i.op == "app" and j.op == "app" and i.args[0] == j.args[0] == "objkey":
        return i is not j
    if i.op == "app" and j.op == "app" and i.args[0] == j.args[0] == "id" and i.args[1][0].op == j.args[1][0].op == "const":
        return i is not j
    return False


def _slice_list(items, s):
    vals = []
    for a in s.args:
        if a is NONE:
            vals.append(None)
        else:
            k = as_int(a)
            if k is None:
                return None
            vals.append(k)
    return items[slice(*vals)]


def nonneg_index(i):
    """index known to be >= 0 (position counted from the front)"""
    b, k = linear(i)
    if b is None:
        return k >= 0
    return b.op == "idx" and k >= 0


def is_scalar_index(i):
    return i.op != "idxt" and i.op != "slice" and i is not NONE and not is_maskish(i) and rank(i) == 0 and not (
        is_const(i) and not is_num(i))


LENGRP = {}        # symbol -> the length the specification gives it (capital letters: a precondition)


def colbase(t):
    """a column of a data frame, or a selection of its rows"""
    while t.op == "getitem" and (t.args[1].op == "slice" or is_maskish(t.args[1])):
        t = t.args[0]
    return t.op == "app" and t.args[0] in ("col", "csvcol", "arange")


def colarange(t):
    if t.op == "getitem":
        return getitem(colarange(t.args[0]), t.args[1])
    if t.args[0] == "arange":
        return t
    return app("arange", app("len", t.args[1][0]))


def arr_len(x):
    """canonical length (first axis) of a value"""
    op = x.op
    if op == "sym" and x.args[0] in LENGRP:
        return LENGRP[x.args[0]][0]
    if op == "list":
        return num(len(x.args))
    if op == "concat":
        n = ZERO
        for y in x.args:
            n = add(n, arr_len(y))
        return n
    if op == "map":
        if x.args[3] is TRUE:
            return x.args[1]
        return app("len", mk("map", x.args[0], x.args[1], x.args[0], x.args[3]))
    if op == "flat":
        sk = flat_skel(x.args[2], x.args[0])
        return app("len", mk("flat", x.args[0], x.args[1], sk) if sk is not None else x)
    if op == "app" and str(x.args[0]).startswith("colours:") and len(x.args[1]) == 1:
        return arr_len(x.args[1][0])
    if op in ELEMOPS or (op == "app" and x.args[0] in ELEMENTWISE):
        ops = x.args if op in ELEMOPS else x.args[1]
        r = rank(x)
        if r is not None and r >= 1:
            for o in ops:
                if rank(o) == r:
                    return arr_len(o)
        for o in ops:
            if rank(o) is not None and rank(o) >= 1 and r is None:
                return arr_len(o)
        return app("len", x)
    if op == "setitem":
        if x.args[0].op == "dict" or rank(x) is None:
            return app("len", x)
        return arr_len(x.args[0])
    if op == "getitem":
        b, i = x.args
        if i.op == "idxt" and i.args[0] is FULL:
            return arr_len(b)
        if i.op == "idxt" and i.args[0].op == "slice":
            return arr_len(getitem(b, i.args[0]))
        if i is REV:
            return arr_len(b)
        if b.op in ("app", "getitem") and colbase(b) and (i.op == "slice" or is_maskish(i)):
            return app("len", getitem(colarange(b), i))
        if rank(b) == 2 and i.op != "slice" and rank(i) == 0:
            return ncols(b)
        if i.op == "slice" and i.args[2] is NONE:
            lo, hi = i.args[0], i.args[1]
            l = 0 if lo is NONE else as_int(lo)
            h = 0 if hi is NONE else as_int(hi)
            if l is not None and l >= 0 and h is not None and (hi is NONE or h < 0):
                return add(arr_len(b), num(h - l))
            # x[:k]
        if i.op == "app" and i.args[0] == "argsort":
            return arr_len(i.args[1][0])
        return app("len", x)
    if op == "app" and x.args[0] in ("zeros_like", "ones_like", "sort", "cumsum", "copy", "astype", "flip", "full"):
        if x.args[0] == "full":
            return x.args[1][0]
        return arr_len(x.args[1][0])
    if op == "app" and x.args[0] in ("zeros", "ones", "empty"):
        s = x.args[1][0]
        if s.op == "list" and s.args:
            return s.args[0]
        if rank(s) == 0:
            return s
    if op == "app" and x.args[0] in ("full_like_dtype", "cast", "fill", "argsort", "interp", "hilbert", "vals", "u:probe:arr"):
        return arr_len(x.args[1][0])
    if op == "app" and x.args[0] in ("sum", "mean", "max", "min") and rank(x) == 1 and len(x.args) > 2 \
            and dict(x.args[2]).get("axis") is ZERO and rank(x.args[1][0]) == 2:
        return ncols(x.args[1][0])
    if op == "app" and x.args[0] in ("gkey", "gagg"):
        return app("len", mk("app", "gkey", (x.args[1][0], ZERO), x.args[2]))
    if op == "app" and x.args[0] in ("col", "csvcol"):
        return app("len", x.args[1][0])
    if op == "app" and x.args[0] == "arange" and len(x.args[1]) == 1 and not x.args[2]:
        return x.args[1][0]
    if op == "app" and x.args[0] == "linspace" and len(x.args[1]) >= 3:
        return x.args[1][2]
    if op == "app" and x.args[0] == "T":
        inner = x.args[1][0]
        if inner.op == "list" and inner.args:
            return arr_len(inner.args[0])
    if op == "ite":
        p, q = arr_len(x.args[1]), arr_len(x.args[2])
        return ite(x.args[0], p, q)
    if op == "mu" and MU_INIT.get(x.id) is not None and rank(x) is not None and x.id not in MU_RANK:
        return arr_len(MU_INIT[x.id])
    if op == "where":
        pass
    if op == "const" and isinstance(x.args[0], str):
        return num(len(x.args[0]))
    if op == "dict":
        return num(len(x.args))
    return app("len", x)


def map_elementwise(t, f):
    """rebuild an elementwise node with f applied to its operands"""
    if t.op in ELEMOPS:
        na = [f(o) for o in t.args]
        return rebuild(t.op, na)
    fn, pos, kw = t.args
    return mk("app", fn, tuple(f(o) for o in pos), kw)


def is_elementwise(t):
    return t.op in ELEMOPS or (t.op == "app" and t.args[0] in ELEMENTWISE)


def flat_skel(rest, i):
    """pairs (outer, inner index) of the elements of one block of a flattened sequence"""
    if rest.op == "map":
        return mk("map", rest.args[0], rest.args[1], lst(i, rest.args[0]), rest.args[3])
    if rest.op == "list":
        return lst(*[lst(i, num(k)) for k in range(len(rest.args))])
    if rest.op == "ite":
        a, b = flat_skel(rest.args[1], i), flat_skel(rest.args[2], i)
        return None if a is None or b is None else ite(rest.args[0], a, b)
    return None


def flat_pick(rest, j):
    if rest.op == "map":
        return subst(rest.args[2], {rest.args[0].id: j})
    if rest.op == "list":
        return rest.args[0] if len(rest.args) == 1 else getitem(rest, j)
    return ite(rest.args[0], flat_pick(rest.args[1], j), flat_pick(rest.args[2], j))


def flat_elem(b, k):
    idx, dom, rest = b.args
    sk = flat_skel(rest, idx)
    if sk is None or sk is rest:
        return None
    pos = mk("getitem", mk("flat", idx, dom, sk), k)
    return subst(flat_pick(rest, mk("getitem", pos, ONE)), {idx.id: mk("getitem", pos, ZERO)})


def assume(t, c):
    """t where c is known to hold"""
    cs = set(c.args) if c.op == "and" else {c}

    def f(x):
        if x.op == "ite":
            if x.args[0] in cs:
                return rewrite(x.args[1], f)
            if not_(x.args[0]) in cs:
                return rewrite(x.args[2], f)
        return None
    return rewrite(t, f)


def dictroot(b):
    while b.op in ("setitem", "delitem"):
        b = b.args[0]
    return b.op == "dict"


def getitem(b, i):
    if i.op == "idxt" and dictroot(b):
        i = lst(*i.args)
    else:
        i = canon_idx(i)
    if i is FULL:
        return b
    if b.op == "ite":
        return ite(b.args[0], getitem(b.args[1], i), getitem(b.args[2], i))
    if i.op == "ite":
        return ite(i.args[0], getitem(b, i.args[1]), getitem(b, i.args[2]))
    if b.op == "unbound":
        return b
    if b.op == "app" and b.args[0] == "arange" and len(b.args[1]) == 1 and nonneg_index(i):
        return i
    if b.op == "list":
        k = as_int(i)
        if k is not None and -len(b.args) <= k < len(b.args):
            return b.args[k]
        if i.op == "slice":
            r = _slice_list(b.args, i)
            if r is not None:
                return lst(*r)
        if i.op == "idxt":
            k = as_int(i.args[0])
            if k is not None and -len(b.args) <= k < len(b.args):
                return getitem(b.args[k], mk("idxt", *i.args[1:]))
            if i.args[0] is FULL and len(i.args) == 2 and i.args[1] is not NONE:
                if all(x.op == "list" for x in b.args) or (b.args and all(rank(x) is not None and rank(x) >= 1 for x in b.args)):
                    return lst(*[getitem(x, i.args[1]) for x in b.args])
            if i.args[0].op == "slice" and i.args[0] is not FULL and len(i.args) == 2:
                r = _slice_list(b.args, i.args[0])
                if r is not None:
                    return getitem(lst(*r), mk("idxt", FULL, i.args[1]))
        if i.op == "list" and all(as_int(x) is not None for x in i.args):
            return lst(*[getitem(b, x) for x in i.args])
    # known entries at the front (back) of a sequence
    if b.op == "concat" and b.args[0].op == "list":
        k = as_int(i)
        if k is not None and 0 <= k < len(b.args[0].args):
            return b.args[0].args[k]
        if i.op == "slice" and i.args[1] is NONE and i.args[2] is NONE:
            k = as_int(i.args[0])
            if k is not None and 0 < k <= len(b.args[0].args):
                return concat(lst(*b.args[0].args[k:]), *b.args[1:])
    if b.op == "concat" and b.args[-1].op == "list":
        k = as_int(i)
        if k is not None and -len(b.args[-1].args) <= k < 0:
            return b.args[-1].args[k]
        if i.op == "slice" and i.args[0] is NONE and i.args[2] is NONE:
            k = as_int(i.args[1])
            if k is not None and -len(b.args[-1].args) <= k < 0:
                return concat(*b.args[:-1], lst(*b.args[-1].args[:k]))
    if b.op == "dict":
        for k, v in b.args:
            if k is i:
                return v
    if b.op == "setitem":
        if b.args[1] is i:
            return b.args[2]
        if disjoint(b.args[1], i):
            return getitem(b.args[0], i)
        if b.args[1].op == "idxt" and i.op != "idxt" and len(b.args[1].args) == 2 and is_scalar_index(i) \
                and is_scalar_index(b.args[1].args[0]) and disjoint(b.args[1].args[0], i):
            return getitem(b.args[0], i)
        # row/column reads through a store to one column: x[:, k] := v
        si = b.args[1]
        if si.op == "idxt" and len(si.args) == 2 and si.args[0] is FULL and i.op != "idxt" and i is not NONE \
                and (i.op == "slice" or is_scalar_index(i)):
            v = b.args[2]
            nv = getitem(v, i) if rank(v) == 1 else (v if rank(v) == 0 else None)
            if nv is not None:
                inner = mk("idxt", FULL, si.args[1]) if i.op == "slice" else si.args[1]
                return setitem(getitem(b.args[0], i), inner, nv)
        if si.op == "idxt" and len(si.args) == 2 and si.args[0] is FULL and i.op == "idxt" and len(i.args) == 2 \
                and (i.args[0].op == "slice" or is_scalar_index(i.args[0])) and disjoint_cols(si.args[1], i.args[1]):
            return getitem(b.args[0], i)
        if si.op == "idxt" and len(si.args) == 2 and si.args[0] is FULL and i.op == "idxt" and len(i.args) == 2 \
                and si.args[1] is i.args[1] and (i.args[0].op == "slice" or is_scalar_index(i.args[0])):
            v = b.args[2]
            if rank(v) == 1:
                return getitem(v, i.args[0])
            if rank(v) == 0 and is_scalar_index(i.args[0]):
                return v
        # selecting leading columns keeps stores to those columns
        if si.op == "idxt" and len(si.args) == 2 and i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL \
                and i.args[1].op == "slice" and as_int(si.args[1]) is not None and i.args[1].args[0] is NONE \
                and i.args[1].args[2] is NONE and (as_int(i.args[1].args[1]) or 0) > as_int(si.args[1]) >= 0:
            return setitem(getitem(b.args[0], i), si, b.args[2])
        if si.op == "idxt" and len(si.args) == 2 and i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL \
                and as_int(i.args[1]) is not None and as_int(si.args[1]) is not None \
                and as_int(si.args[1]) != as_int(i.args[1]):
            return getitem(b.args[0], i)
    if i.op == "app" and i.args[0] == "full" and i.args[1][1] is TRUE and rank(b) is not None and arr_len(b) is i.args[1][0]:
        return b
    if b.op == "app" and b.args[0] == "T":
        x = b.args[1][0]
        if i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL:
            return getitem(x, i.args[1])
        if i.op == "idxt" and len(i.args) == 2:
            return getitem(x, mk("idxt", i.args[1], i.args[0]))
        if i.op == "slice":
            return transpose(getitem(x, mk("idxt", FULL, i)))
        if not (is_const(i) and not is_num(i)):
            return getitem(x, mk("idxt", FULL, i))
    if b.op == "map" and b.args[3] is TRUE and is_scalar_index(i) and nonneg_index(i):
        return subst(b.args[2], {b.args[0].id: i})
    if b.op == "map" and i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL and b.args[2].op == "list" \
            and (as_int(i.args[1]) is not None or i.args[1].op in ("list", "slice")):
        return mkmap(b.args[0], b.args[1], getitem(b.args[2], i.args[1]), b.args[3])
    if b.op == "map" and b.args[3] is not TRUE and b.args[2] is not b.args[0] and is_scalar_index(i) and not is_str(i):
        # the i-th selected element is the body at the i-th selected index
        return subst(b.args[2], {b.args[0].id: mk("getitem", mk("map", b.args[0], b.args[1], b.args[0], b.args[3]), i)})
    if b.op == "flat" and is_scalar_index(i) and not is_str(i):
        r = flat_elem(b, i)
        if r is not None:
            return r
    if b.op == "app" and b.args[0] in ("zeros_like", "ones_like") and is_scalar_index(i) and rank(b) == 1:
        return ZERO if b.args[0] == "zeros_like" else ONE
    if b.op == "app" and b.args[0] in ("zeros_like", "ones_like") and (i.op == "slice" or is_maskish(i)):
        return app(b.args[0], getitem(b.args[1][0], i))
    if b.op == "app" and b.args[0] == "full" and is_scalar_index(i):
        return b.args[1][1]
    # columns of row-wise concatenation / selection
    if i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL and b.op == "getitem" \
            and (b.args[1].op == "slice" or is_maskish(b.args[1])):
        if i.args[1] is not NONE:
            return getitem(getitem(b.args[0], i), b.args[1])
    if i.op == "idxt" and len(i.args) == 2 and i.args[1] is not NONE and i.args[0] is not NONE and i.args[0] is not FULL \
            and (i.args[0].op == "slice" or is_scalar_index(i.args[0])) \
            and (as_int(i.args[1]) is not None):
        # x[s, k] == x[:, k][s]
        return getitem(getitem(b, mk("idxt", FULL, i.args[1])), i.args[0])
    if i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL and b.op == "getitem" and b.args[1].op == "idxt" \
            and len(b.args[1].args) == 2 and b.args[1].args[0] is FULL and b.args[1].args[1].op == "slice":
        sl = b.args[1].args[1]
        k = as_int(i.args[1])
        if k is not None and k >= 0 and sl.args[0] is NONE and sl.args[2] is NONE and (as_int(sl.args[1]) or 0) > k:
            return getitem(b.args[0], i)
    # broadcasting helpers x[:, None] and x[None]
    if i.op == "idxt" and len(i.args) == 2 and i.args[1] is NONE and i.args[0] is not FULL and i.args[0].op == "slice":
        return getitem(getitem(b, i.args[0]), mk("idxt", FULL, NONE))
    if i.op == "idxt" and len(i.args) == 2 and i.args[0] is NONE and (i.args[1] is FULL or i.args[1].op == "slice"):
        return getitem(getitem(b, i.args[1]), NONE)
    if b.op == "getitem" and b.args[1].op == "idxt" and len(b.args[1].args) == 2 \
            and b.args[1].args[0] is FULL and b.args[1].args[1] is NONE:
        if is_scalar_index(i):
            return getitem(b.args[0], i)
        if i.op == "slice" or is_maskish(i):
            return getitem(getitem(b.args[0], i), b.args[1])
    if b.op == "getitem" and b.args[1] is NONE:
        if is_scalar_index(i):
            return b.args[0]
        if i.op == "slice":
            return b
    # reads through slices
    if b.op == "getitem" and b.args[1].op == "slice":
        lo, hi, stp = b.args[1].args
        if stp is NONE:
            l = 0 if lo is NONE else as_int(lo)
            if is_scalar_index(i) and l is not None and l >= 0 and nonneg_index(i):
                return getitem(b.args[0], add(i, num(l)))
            k = as_int(i)
            if k is not None and k < 0:
                h = 0 if hi is NONE else as_int(hi)
                if hi is NONE or (h is not None and h < 0):
                    return getitem(b.args[0], num(k + h))
            if i.op == "slice" and i.args[2] is NONE and l is not None and l >= 0:
                l2 = 0 if i.args[0] is NONE else as_int(i.args[0])
                h2 = 0 if i.args[1] is NONE else as_int(i.args[1])
                h = 0 if hi is NONE else as_int(hi)
                if l2 is not None and l2 >= 0 and h is not None and h2 is not None and (hi is NONE or h < 0) \
                        and (i.args[1] is NONE or h2 < 0):
                    nl, nh = l + l2, h + h2
                    return getitem(b.args[0], mk("slice", num(nl) if nl else NONE, num(nh) if nh else NONE, NONE))
        elif b.args[1] is REV:
            if i is REV:
                return b.args[0]
            k = as_int(i)
            if k is not None:
                return getitem(b.args[0], num(-1 - k))
            # x[::-1][1:] == x[:-1][::-1]
            if i.op == "slice" and i.args[2] is NONE:
                l2 = None if i.args[0] is NONE else as_int(i.args[0])
                h2 = None if i.args[1] is NONE else as_int(i.args[1])
                if (i.args[0] is NONE or l2 is not None) and (i.args[1] is NONE or h2 is not None):
                    lo2 = num(-h2) if h2 else NONE
                    hi2 = num(-l2) if l2 else NONE
                    return getitem(getitem(b.args[0], mk("slice", lo2, hi2, NONE)), REV)
    # x[len(x) - k] == x[-k]
    if i.op == "add" or (i.op == "app" and i.args[0] == "len"):
        base, k = linear(i)
        if base is not None and base.op == "app" and base.args[0] == "len" and k < 0 and arr_len(b) is base:
            return getitem(b, num(k))
    if is_elementwise(b) and i is not NONE:
        r = rank(b)
        if r is not None and r >= 1:
            if (i.op == "slice" or is_scalar_index(i) or is_maskish(i)) and all(rank(o) is not None for o in _operands(b)):
                return map_elementwise(b, lambda o: getitem(o, i) if rank(o) == r else o)
            if i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL and i.args[1] is not NONE and r == 2:
                return map_elementwise(b, lambda o: getitem(o, i) if rank(o) == 2 else (
                    getitem(o, i.args[1]) if rank(o) == 1 else o))
            if i.op == "idxt" and len(i.args) == 2 and i.args[0] is FULL and i.args[1] is NONE and r == 1:
                return map_elementwise(b, lambda o: getitem(o, i) if rank(o) == 1 else o)
            if i.op == "idxt" and len(i.args) == 2 and r == 2 and is_scalar_index(i.args[0]):
                return getitem(getitem(b, i.args[0]), i.args[1])
        elif r is None and (i.op == "slice" or is_maskish(i) or is_scalar_index(i)) and not (is_const(i) and not is_num(i)):
            # unknown operands next to scalars only: index commutes
            ops = _operands(b)
            unk = [o for o in ops if rank(o) != 0]
            if len(unk) == 1:
                return map_elementwise(b, lambda o: getitem(o, i) if rank(o) != 0 else o)
    if i is NONE and is_elementwise(b) and rank(b) == 1:
        return map_elementwise(b, lambda o: getitem(o, i) if rank(o) == 1 else o)
    return mk("getitem", b, i)


def disjoint_cols(a, b):
    p, q = as_int(a), as_int(b)
    return p is not None and q is not None and p != q and (p >= 0) == (q >= 0)


def _operands(b):
    return b.args if b.op in ELEMOPS else b.args[1]


def subst(t, m):
    """substitute nodes by id, renormalising"""
    return rewrite(t, lambda x: m.get(x.id))


def transpose(x):
    if x.op == "app" and x.args[0] == "T":
        return x.args[1][0]
    if x.op == "ite":
        return ite(x.args[0], transpose(x.args[1]), transpose(x.args[2]))
    if rank(x) in (0, 1) and x.op != "list":
        return x
    if x.op == "list" and x.args and all(rank(y) == 0 for y in x.args):
        return x
    return app("T", x)


def flipud(x):
    return getitem(x, REV)


def elementwise_over(v, i, m):
    """v is an entry-by-entry function of x[i] reads and scalars"""
    if v.op == "getitem" and (v.args[1] is i or v.args[1] is m):
        return True
    if rank(v) == 0 and not any(x.op == "getitem" and (x.args[1] is i or x.args[1] is m) for x in subterms(v)):
        return True
    if is_elementwise(v):
        return all(elementwise_over(o, i, m) for o in _operands(v))
    return False


def unmask(v, i, m):
    return rewrite(v, lambda t: unmask(t.args[0], i, m) if (t.op == "getitem" and (t.args[1] is i or t.args[1] is m)) else None)


def where(m, a, b):
    if a is b:
        return a
    if m is TRUE:
        return a
    if m is FALSE:
        return b
    if m.op == "not":
        return where(m.args[0], b, a)
    if m.op == "app" and m.args[0] == "logical_not":
        return where(m.args[1][0], b, a)
    return mk("where", m, a, b)


def setitem(b, i, v):
    if i.op == "idxt" and dictroot(b):
        i = lst(*i.args)
    else:
        i = canon_idx(i)
    if v.op == "getitem" and v.args[0] is b and v.args[1] is i:
        return b
    if b.op != "mu" and getitem(b, i) is v and v.op != "top":
        return b
    if i is FULL:
        if rank(v) is not None and rank(v) == rank(b):
            return v
        return app("fill", b, v)
    if b.op == "setitem":
        if b.args[1] is i:
            return setitem(b.args[0], i, v)
        if disjoint(b.args[1], i):
            if show(i) < show(b.args[1]):
                return mk("setitem", setitem(b.args[0], i, v), b.args[1], b.args[2])
            return mk("setitem", b, i, v)
    if b.op == "list":
        k = as_int(i)
        if k is not None and -len(b.args) <= k < len(b.args):
            items = list(b.args)
            items[k] = v
            return lst(*items)
        if i.op == "idxt" and as_int(i.args[0]) is not None:
            k = as_int(i.args[0])
            if -len(b.args) <= k < len(b.args):
                items = list(b.args)
                items[k] = setitem(items[k], mk("idxt", *i.args[1:]), v)
                return lst(*items)
        if i.op == "idxt" and i.args[0] is FULL and len(i.args) == 2 and as_int(i.args[1]) is not None \
                and all(x.op == "list" for x in b.args):
            out = []
            for n, x in enumerate(b.args):
                if v.op == "list":
                    if len(v.args) != len(b.args):
                        return mk("setitem", b, i, v)
                    out.append(setitem(x, i.args[1], v.args[n]))
                elif rank(v) == 0:
                    out.append(setitem(x, i.args[1], v))
                else:
                    return mk("setitem", b, i, v)
            return lst(*out)
        si = i if i.op == "slice" else (i.args[0] if i.op == "idxt" and len(i.args) == 2 and i.args[0].op == "slice" else None)
        if si is not None and rank(b) is not None and rank(v) is not None and (si is i or as_int(i.args[1]) is not None):
            idxs = _slice_list(tuple(range(len(b.args))), si)
            vec = rank(v) >= 1 and (si is not i or rank(v) == rank(b))
            if idxs is not None and (rank(v) == 0 or (vec and as_int(arr_len(v)) == len(idxs))) \
                    and (si is i or all(b.args[k].op == "list" for k in idxs)):
                items = list(b.args)
                for n, k in enumerate(idxs):
                    w = getitem(v, num(n)) if vec else v
                    if si is i:
                        items[k] = w if vec or rank(items[k]) == 0 else app("fill", items[k], w)
                    else:
                        items[k] = setitem(items[k], i.args[1], w)
                return lst(*items)
    # x[s] := (x[s] with column c replaced)  ==  x[s, c] := column
    if i.op == "slice" and i is not FULL and v.op == "setitem" and v.args[1].op == "idxt" and len(v.args[1].args) == 2 \
            and v.args[1].args[0] is FULL and as_int(v.args[1].args[1]) is not None:
        w = v
        while w.op == "setitem":
            w = w.args[0]
        if w is getitem(b, i):
            return setitem(setitem(b, i, v.args[0]), mk("idxt", i, v.args[1].args[1]), v.args[2])
    if b.op == "app" and b.args[0] == "T" and b.args[1][0].op == "list" and i.op == "idxt" and len(i.args) == 2:
        # table stored by columns
        k = as_int(i.args[1])
        cols = list(b.args[1][0].args)
        if k is not None and -len(cols) <= k < len(cols):
            cols[k] = setitem(cols[k], i.args[0], v) if i.args[0] is not FULL else (
                v if rank(v) == 1 else app("full", arr_len(cols[k]), v))
            return transpose(lst(*cols))
    if b.op == "dict":
        items = [(k, w) for k, w in b.args if k is not i]
        if len(items) < len(b.args) or is_const(i):
            if len(items) < len(b.args):
                items = [(k, v if k is i else w) for k, w in b.args]
            else:
                items.append((i, v))
            return mk("dict", *items)
    m = mask_of(i)
    if m is not None and elementwise_over(v, i, m):
        return where(m, unmask(v, i, m), b)
    if i.op == "idxt" and len(i.args) == 2 and i.args[0] is not FULL and as_int(i.args[1]) is not None \
            and i.args[0].op == "slice" and b.op == "setitem" and b.args[1].op == "idxt":
        pass
    return mk("setitem", b, i, v)


def delitem(b, i):
    if b.op == "ite":
        return ite(b.args[0], delitem(b.args[1], i), delitem(b.args[2], i))
    if b.op == "dict":
        if any(k is i for k, _ in b.args):
            return mk("dict", *[(k, w) for k, w in b.args if k is not i])
    return mk("delitem", b, i)


def natural(n):
    """the number of repetitions asked for by a count which may be negative"""
    stack, seen = [n], 0
    while stack and seen < 40:
        t = stack.pop()
        seen += 1
        if t.op == "sym" and t.args[1] in ("int", "num", "real", "any"):
            return ite(mk("lt", ZERO, n), n, ZERO)
        if t.op in ("add", "mul", "ite", "sub"):
            stack.extend(x for x in t.args if hasattr(x, "op"))
    return n


def shorter(a, b):
    """the smaller of two lengths"""
    if a is b:
        return a
    if a.op == "ite":
        return ite(a.args[0], shorter(a.args[1], b), shorter(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], shorter(a, b.args[1]), shorter(a, b.args[2]))
    if is_num(a) and is_num(b):
        return a if cval(a) <= cval(b) else b
    return ite(mk("le", a, b), a, b)


def concat(*xs):
    out = []
    for x in xs:
        if x.op == "concat":
            out.extend(x.args)
        else:
            out.append(x)
    merged = []
    for x in out:
        if x.op == "list" and not x.args:
            continue
        if merged and merged[-1].op == "list" and x.op == "list":
            merged[-1] = lst(*(merged[-1].args + x.args))
        else:
            merged.append(x)
    if not merged:
        return lst()
    if len(merged) == 1:
        return merged[0]
    return mk("concat", *merged)


def mkmap(idx, dom, e, guard=TRUE):
    """[e for idx < dom if guard], lifted to array form where entry-by-entry"""
    n = as_int(dom)
    if n is not None and 0 <= n <= 16 and guard is TRUE:
        return lst(*[subst(e, {idx.id: num(k)}) for k in range(n)])
    if guard is TRUE:
        if e.op == "getitem" and e.args[1] is idx and idx not in free_mu(e.args[0]) and same(arr_len(e.args[0]), dom):
            return e.args[0]
        if e.op == "getitem" and is_valmap(e.args[0]) and e.args[1].op == "getitem" and e.args[1].args[1] is idx \
                and idx not in free_mu(e.args[0]) and idx not in free_mu(e.args[1].args[0]) and same(arr_len(e.args[1].args[0]), dom):
            return app("vals", e.args[1].args[0], e.args[0])
        l = lift(e, idx, dom)
        if l is not None and l is not False:
            return l
    return mk("map", idx, dom, e, guard)


_ALPHA = {}


def same(a, b):
    return a is b or a.op == b.op and alpha(a) is alpha(b)


def alpha(t):
    """t with every bound index named by the nesting height of its binder: equal up to renaming iff identical"""
    height = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                rs = [go(a) for a in x]
                return tuple(r[0] for r in rs), max([r[1] for r in rs], default=0)
            return x, 0
        r = _ALPHA.get(x.id)
        if r is not None:
            return r
        rs = [go(a) for a in x.args]
        h = max([r[1] for r in rs], default=0)
        na = tuple(r[0] for r in rs)
        if x.op in ("map", "bigsum", "exists", "until", "first", "flat", "dictmap"):
            h += 1
            v = mk("idx", "alpha", h)
            old = x.args[0]
            na = (v,) + tuple(_plain(a, old, v) for a in na[1:])
        elif x.op == "loop":
            h += 1
            ren = [(x.args[0], mk("idx", "alpha", h))] + [(m, mk("mu", "alpha", h, k)) for k, m in enumerate(x.args[2])]
            for o, v in ren:
                na = tuple(_plain(a, o, v) for a in na)
        r = (mk(x.op, *na) if na != x.args else x, h)
        _ALPHA[x.id] = r
        return r

    return go(t)[0]


def _plain(t, old, new):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if not isinstance(x, T):
            return x
        if x is old:
            return new
        if old not in free_mu(x):
            return x
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = mk(x.op, *[go(a) for a in x.args])
        return r

    return go(t)


def storeall(m, k, v):
    """the map m after m[k[i]] = v[i] for every i in turn"""
    ka = alpha(k)

    def within(q):
        """every key of q is one of k"""
        if alpha(q) is ka:
            return True
        return q.op == "map" and q.args[2].op == "getitem" and \
            alpha(q.args[2].args[0]) in (ka, alpha(app("uniq", k)))

    def strip(x):
        if x.op == "app" and x.args[0] == "storeall" and within(x.args[1][1]):
            return strip(x.args[1][0])
        if x.op == "loopval" and x.args[0].op == "loop" and x.args[0].args[5] is FALSE:
            L, j = x.args
            if strip(L.args[4][j]) is L.args[2][j]:
                return strip(L.args[3][j])
        if x.op == "ite":
            return ite(x.args[0], strip(x.args[1]), strip(x.args[2]))
        return x

    m = strip(m)
    if v.op == "app" and v.args[0] == "vals" and alpha(v.args[1][0]) is ka:
        src = v.args[1][1]
        if src is m:
            return m
    return mk("app", "storeall", (m, k, v), ())


def is_valmap(m):
    """a (possibly updated) map from parameters to their values"""
    for _ in range(60):
        if m.op == "sym":
            return m.args[0] == "F.value"
        if m.op == "setitem":
            m = m.args[0]
        elif m.op == "app" and m.args[0] == "storeall":
            m = m.args[1][0]
        elif m.op == "ite":
            return is_valmap(m.args[1]) and is_valmap(m.args[2])
        elif m.op == "loopval":
            L, k = m.args[0], m.args[1]
            m = L.args[3][k]
        elif m.op == "mu" and m.id in MU_INIT:
            m = MU_INIT[m.id]
        else:
            return False
    return False


def lift(e, idx, dom):
    """array expression whose entry idx is e, or None"""
    if idx not in free_mu(e):
        return False            # constant along the axis
    if e.op == "getitem" and e.args[1] is idx and idx not in free_mu(e.args[0]):
        x = e.args[0]
        if rank(x) == 1 and arr_len(x) is dom:
            return x
        return None
    if e.op == "ite":
        e = mk("where", *e.args)
    if is_elementwise(e):
        ops = []
        for o in _operands(e):
            l = lift(o, idx, dom)
            if l is None:
                return None
            if l is False:
                if rank(o) != 0:
                    return None
                l = o
            ops.append(l)
        if e.op in ELEMOPS:
            return rebuild(e.op, ops)
        return mk("app", e.args[0], tuple(ops), e.args[2])
    return None


def mksum(idx, dom, e, guard=TRUE):
    n = as_int(dom)
    if n is not None and 0 <= n <= 16 and guard is TRUE:
        out = ZERO
        for k in range(n):
            out = add(out, subst(e, {idx.id: num(k)}))
        return out
    if guard is TRUE:
        l = lift(e, idx, dom)
        if l is not None and l is not False:
            return app("sum", l)
    return mk("bigsum", idx, dom, e, guard)


REBUILD.update({
    "getitem": getitem,
    "setitem": setitem,
    "where": where,
    "concat": concat,
    "map": mkmap,
    "bigsum": mksum,
})


def _app_rebuild(fn, pos, kw):
    if fn == "len" and len(pos) == 1 and not kw:
        return arr_len(pos[0])
    if fn == "T":
        return transpose(pos[0])
    if fn == "storeall":
        return storeall(*pos)
    return mk("app", fn, pos, kw)


REBUILD["app"] = _app_rebuild


def ncols(t):
    """number of columns of a two dimensional value"""
    op, a = t.op, t.args
    if op == "sym" and a[0] in LENGRP and len(LENGRP[a[0]]) > 1:
        return LENGRP[a[0]][1]
    if op == "list" and t.args:
        return arr_len(a[0])
    if op == "app" and a[0] == "T":
        return arr_len(a[1][0])
    if op == "getitem" and a[1].op == "idxt" and len(a[1].args) == 2:
        i, j = a[1].args
        if i is FULL and j is NONE:
            return ONE
        if j is FULL or (i is not NONE and j is NONE):
            return ncols(a[0]) if j is FULL else ONE
        if j.op == "slice" and i is not NONE:
            lo, hi, st = j.args
            if st is NONE and as_int(hi) is not None and (lo is NONE or as_int(lo) is not None):
                l, h = (0 if lo is NONE else as_int(lo)), as_int(hi)
                if h >= l >= 0:
                    return num(h - l)
    if op == "getitem" and a[1] is NONE:
        return arr_len(a[0])
    if op == "getitem" and (a[1].op == "slice" or is_maskish(a[1])) and rank(a[0]) == 2:
        return ncols(a[0])
    if op == "setitem":
        return ncols(a[0])
    if op == "app" and a[0] in ("zeros", "ones", "empty") and a[1][0].op == "list" and len(a[1][0].args) == 2:
        return a[1][0].args[1]
    if op == "app" and a[0] in ("zeros_like", "ones_like", "full_like_dtype", "cast", "fill", "astype", "copy"):
        return ncols(a[1][0])
    if op == "map":
        return arr_len(a[2])
    if op == "concat":
        return ncols(a[0])
    if op == "ite":
        p, q = ncols(a[1]), ncols(a[2])
        if p is q:
            return p
    if is_elementwise(t):
        best = None
        for o in _operands(t):
            r = rank(o)
            if r == 2:
                n = ncols(o)
            elif r == 1:
                n = arr_len(o)
            else:
                continue
            if best is None or best is ONE:
                best = n
        if best is not None:
            return best
    return app("ncols", t)
