"""Vocabulary: what the analysed program's library calls denote.

Only semantics documented by numpy / scipy / pandas / the standard library.
Anything not listed becomes an opaque node `?name`, which makes every verdict
that depends on it UNDECIDED rather than a report.
"""
import ast
import builtins
import re
from fractions import Fraction

from .terms import *
from . import norm
from .norm import (getitem, setitem, lst, concat, FULL, ELL, rank, arr_len, transpose, where, mkmap, mksum, subst,
                   is_scalar_index, is_maskish, canon_idx)
from .interp import Class, Dead, Unsupported, Frame, EXC_PARENTS, anydict

PI = app("pi")
INF = num(float("inf"))
NINF = num(float("-inf"))
NAN = num(float("nan"))
EPS = app("eps")

SCALAR_KINDS = {"real", "posreal", "int", "posint", "num", "cplx", "bool", "unit"}
norm.KIND_RANK.update({"posint": 0, "unit": 0, "narr": 1, "narr2": 2, "posarr2": 2})
STRUCT_KINDS = {"str", "path", "dict", "list", "strlist", "params", "param", "handle", "model", "callable"}

DEG = {"numpy.rad2deg": True, "numpy.degrees": True, "math.degrees": True,
       "numpy.deg2rad": False, "numpy.radians": False, "math.radians": False}

UNARY = {}
for _n in ("sqrt exp log log10 log2 log1p expm1 cos sin tan arctan arcsin arccos sinh cosh tanh isnan isfinite isinf sign "
           "floor ceil rint arctanh arcsinh arccosh").split():
    UNARY["numpy." + _n] = _n
for _n in ("sqrt exp log log10 cos sin tan sinh cosh tanh isnan isfinite isinf floor ceil").split():
    UNARY["math." + _n] = _n
    UNARY["cmath." + _n] = ("sc_sqrt" if _n == "sqrt" else _n)
for _a, _b in (("atan", "arctan"), ("asin", "arcsin"), ("acos", "arccos")):
    UNARY["math." + _a] = _b
    UNARY["numpy." + _a] = _b
for _n in ("arcsin", "arccos", "sqrt", "log"):
    UNARY["numpy.lib.scimath." + _n] = "sc_" + _n
    UNARY["numpy.emath." + _n] = "sc_" + _n
UNARY.update({"numpy.conj": "conj", "numpy.conjugate": "conj", "numpy.abs": "abs", "numpy.absolute": "abs",
              "numpy.fabs": "abs", "math.fabs": "abs", "builtins.abs": "abs", "numpy.trunc": "trunc"})
norm.ELEMENTWISE |= {"sc_log", "trunc", "arctanh", "arcsinh", "arccosh", "float32", "float16", "toint"}

BINARY = {"numpy.add": "Add", "numpy.subtract": "Sub", "numpy.multiply": "Mult", "numpy.divide": "Div",
          "numpy.true_divide": "Div", "numpy.power": "Pow", "numpy.float_power": "Pow", "numpy.mod": "Mod",
          "numpy.remainder": "Mod", "numpy.floor_divide": "FloorDiv", "builtins.pow": "Pow", "math.pow": "Pow",
          "operator.add": "Add", "operator.sub": "Sub", "operator.mul": "Mult", "operator.truediv": "Div",
          "operator.mod": "Mod", "operator.pow": "Pow"}
CMP = {"numpy.less": "Lt", "numpy.less_equal": "LtE", "numpy.greater": "Gt", "numpy.greater_equal": "GtE",
       "numpy.equal": "Eq", "numpy.not_equal": "NotEq", "operator.lt": "Lt", "operator.le": "LtE",
       "operator.gt": "Gt", "operator.ge": "GtE", "operator.eq": "Eq", "operator.ne": "NotEq"}

FLOATY = {"numpy.float64", "builtins.float", "numpy.double", "builtins.complex", "numpy.complex128", "numpy.float_",
          "builtins.object", "numpy.cdouble", "numpy.longdouble"}


def kindof(t):
    if t.op == "sym":
        return t.args[1]
    if t.op == "app" and isinstance(t.args[0], str) and t.args[0].startswith("u:"):
        return t.args[0].split(":")[2]
    return None


class Kw(dict):
    """keyword arguments of a library call, noting which ones its model looks at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def items(self):
        self.seen.update(self)
        return dict.items(self)

    def values(self):
        self.seen.update(self)
        return dict.values(self)

    def keys(self):
        self.seen.update(self)
        return dict.keys(self)

    def __bool__(self):
        self.seen.update(self)
        return len(self) > 0

    def ignored(self, name):
        return sorted(k for k in self if k not in self.seen and k not in HARMLESS.get(name, HARMLESS["*"]))


HARMLESS = {"*": ("copy", "order", "encoding", "errors", "kind"), "numpy.errstate": ("invalid", "divide", "over", "under", "all"),
            "warnings.filterwarnings": ("category", "message", "module", "lineno", "append"),
            "warnings.simplefilter": ("category", "lineno", "append"), "warnings.warn": ("category", "stacklevel"),
            "builtins.print": ("file", "end", "sep", "flush")}


class Lib:
    LAZY = {}

    def __init__(self, models):
        self.models = models          # external dotted name -> (module, name)
        self.fm = {}                  # qualified repo function -> handler

    # ---------------------------------------------------------------- names
    def is_builtin(self, n):
        return hasattr(builtins, n) or n in ("__file__", "__name__")

    def canon_name(self, d):
        if d.startswith("numpy.core."):
            d = "numpy." + d[len("numpy.core."):]
        if d == "np":
            return "numpy"
        return d

    def model_for(self, full):
        return self.models.get(full)

    def func_model(self, f):
        return self.fm.get(f.module.name + "." + f.qual)

    def symkind(self, o):
        return kindof(o)

    def ext_attr(self, I, o, name):
        b = o.args[0]
        g = I.st.h.get(("g", o, name))
        if g is not None:
            return g
        full = b + "." + name
        if full in ("numpy.pi", "math.pi", "scipy.constants.pi"):
            return PI
        if full in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty"):
            return INF
        if full in ("numpy.nan", "math.nan", "numpy.NaN"):
            return NAN
        if full == "numpy.newaxis":
            return NONE
        if full in ("numpy.e", "math.e"):
            return app("exp", ONE)
        full = self.canon_name(full)
        mm = self.model_for(full)
        if mm is not None:
            return I.module_attr(I.prog.module(mm[0]), mm[1])
        m = I.prog.module(full)
        if m is not None:
            return mk("mod", full)
        return mk("ext", full)

    # ---------------------------------------------------------------- values
    def V(self, I, x):
        """numeric value of an operand"""
        return self.numval(I, I.d(x) if I.isref(x) else x)

    def numval(self, I, v):
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__array__")
                if m:
                    return self.V(I, I.call_func(m[1], [v], {}))
                m, _ = cls.find("__float__")
                if m:
                    return self.V(I, I.call_func(m[1], [v], {}))
                m, _ = cls.find("__iter__")
                if m is None:
                    m, _ = cls.find("__getitem__")
                if m or I.st.h.get(("a", v.args[0], "data")) is not None:
                    return self.numval(I, I.iter_term(v))
            return v
        if v.op == "sym" and v.args[1] == "param":
            return I.field(v, "value")
        if v.op == "sym" and v.args[1] == "params":
            return self.vals_of(I, v)
        if v.op == "getitem" and self.is_paramseq(v.args[0]) and rank(v.args[1]) == 0:
            return I.field(v, "value")
        if v.op == "list":
            if any(x.op in ("ref", "obj", "list", "sym", "ite", "getitem") for x in v.args):
                return lst(*[self.V(I, x) for x in v.args])
            return v
        if v.op == "concat":
            return concat(*[self.numval(I, x) for x in v.args])
        if v.op == "ite" and (I.isref(v) or I.hasobj(v)):
            return ite(v.args[0], self.V(I, v.args[1]), self.V(I, v.args[2]))
        if v.op == "map":
            e = self.numval(I, I.d(v.args[2]))
            if e is not v.args[2]:
                return mkmap(v.args[0], v.args[1], e, v.args[3])
        if v.op == "app" and v.args[0] == "uniq":
            return self.vals_of(I, v)
        if v.op == "record":
            return v
        return v

    def vals_of(self, I, seq):
        """array of the values of a symbolic sequence of parameters"""
        m = I.st.h.get(("F", "value")) or sym("F.value", "map")
        if seq.op == "list":
            return lst(*[self.V(I, x) for x in seq.args])
        return app("vals", seq, m)

    def arith(self, I, op, *xs):
        if op == "neg":
            x = xs[0]
            if x.op == "list":
                return lst(*[self.arith(I, "neg", y) for y in x.args])
            if x.op == "neg":
                return x.args[0]
            if x.op == "ite":
                return ite(x.args[0], self.arith(I, "neg", x.args[1]), self.arith(I, "neg", x.args[2]))
            return neg(x)
        f = {"add": add, "sub": sub, "mul": mul, "div": div, "pow": power}[op]
        a, b = xs
        a, b = self.bfull(a, b)
        if a.op == "list" and b.op == "list" and len(a.args) == len(b.args):
            return lst(*[self.arith(I, op, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "list" and rank(b) == 0 and rank(a) is not None:
            return lst(*[self.arith(I, op, x, b) for x in a.args])
        if b.op == "list" and rank(a) == 0 and rank(b) is not None:
            return lst(*[self.arith(I, op, a, x) for x in b.args])
        return f(a, b)

    def bfull(self, a, b):
        for _ in range(2):
            if a.op == "app" and a.args[0] == "full" and rank(b) is not None and rank(b) >= 1 \
                    and not (b.op == "app" and b.args[0] == "full"):
                a = a.args[1][1]
            a, b = b, a
        return a, b

    def elem(self, I, fn, *xs):
        """entry-by-entry library function"""
        if len(xs) == 1:
            x = xs[0]
            if x.op == "list" and rank(x) is not None:
                return lst(*[self.elem(I, fn, y) for y in x.args])
            if x.op == "ite":
                return ite(x.args[0], self.elem(I, fn, x.args[1]), self.elem(I, fn, x.args[2]))
            if x.op == "app" and x.args[0] == "full":
                return app("full", x.args[1][0], self.elem(I, fn, x.args[1][1]))
            if fn in ("real", "imag"):
                return reim(fn, x)
            if fn == "abs" and is_num(x):
                return num(abs(cval(x)))
            if fn == "conj" and isreal(x):
                return x
            return app(fn, x)
        if len(xs) == 2:
            a, b = self.bfull(*xs)
            if a.op == "list" and b.op == "list" and len(a.args) == len(b.args):
                return lst(*[self.elem(I, fn, x, y) for x, y in zip(a.args, b.args)])
            if a.op == "list" and rank(b) == 0:
                return lst(*[self.elem(I, fn, x, b) for x in a.args])
            if b.op == "list" and rank(a) == 0:
                return lst(*[self.elem(I, fn, a, x) for x in b.args])
            if is_num(a) and is_num(b):
                if fn == "minimum":
                    return num(min(cval(a), cval(b)))
                if fn == "maximum":
                    return num(max(cval(a), cval(b)))
                if fn == "mod" and cval(b) != 0:
                    return num(cval(a) % cval(b))
                if fn == "floordiv" and cval(b) != 0:
                    return num(Fraction(cval(a) // cval(b)))
            return app(fn, a, b)
        return app(fn, *xs)

    def simplify_gate(self, I, c, v, w):
        if v is w:
            return v
        # a guard that only skips an update with no effect
        for x, y, pol in ((v, w, True), (w, v, False)):
            if pol and c.op == "app" and c.args[0] == "any" and len(c.args[1]) == 1:
                if vacuous(c.args[1][0], x, y):
                    return x
        if v.op == "not" and v.args[0].op == "app" and False:
            pass
        return ite(c, v, w)

    # ---------------------------------------------------------------- operators
    def binop(self, I, op, a, b):
        x = I.d(a) if I.isref(a) else a
        y = I.d(b) if I.isref(b) else b
        ka, kb = I.kind(a) if a.op == "ref" else None, I.kind(b) if b.op == "ref" else None
        if op == "Add":
            if self.is_str(x) or self.is_str(y):
                return self.strcat([x, y])
            if ka == "list" or kb == "list" or (ka is None and kb is None and x.op in ("list", "concat") and y.op in ("list", "concat")
                                                and a.op != "ref" and b.op != "ref" and self.is_tuple(a) and self.is_tuple(b)):
                if ka != "array" and kb != "array":
                    r = concat(I.iter_term(a), I.iter_term(b))
                    return I.alloc(r, "list") if (ka == "list" or kb == "list") else r
        if op == "Mult" and ka != "array" and kb != "array":
            for p, q, kp in ((a, y, ka), (b, x, kb)):
                if kp == "list" or (p.op == "list" and rank(q) == 0 and q.op != "ref"):
                    s = I.iter_term(p)
                    n = as_int(q)
                    if n is not None and s.op in ("list",) and n < 50:
                        r = lst(*(s.args * max(n, 0)))
                    else:
                        q = norm.natural(q)
                        r = app("repeat", s, q)
                        if s.op == "list" and len(s.args) == 1 and n is None:
                            ix = mk("idx", I.uid(), 0)
                            r = mk("map", ix, q, s.args[0], TRUE)
                    return I.alloc(r, "list")
            if is_str(x) and as_int(y) is not None:
                return const(cval(x) * as_int(y))
        if op == "Mod" and is_str(x):
            return app("strfmt", I.freeze(x), I.freeze(y))
        if op == "BitOr" and (x.op == "dict" or y.op == "dict" or ka == "dict"):
            return I.alloc(mk("dictmerge", x, y), "dict")
        x, y = self.numval(I, x), self.numval(I, y)
        if x.op == "unbound" or y.op == "unbound":
            return mk("unbound")
        if op in ("BitAnd", "BitOr", "BitXor", "Sub") and any(
                t.op == "app" and t.args[0] in ("set", "keys", "frozenset") for t in (x, y)):
            if op == "BitOr" and all(t.op == "app" and t.args[0] == "set" and len(t.args[1]) == 1 and t.args[1][0].op == "list" for t in (x, y)):
                return app("set", concat(x.args[1][0], y.args[1][0]))
            return app("?op:" + op, I.freeze(x), I.freeze(y))
        if op in ("BitAnd", "BitOr", "BitXor"):
            def whole(t):
                return as_int(t) is not None or t.op == "sym" and t.args[-1] in ("int", "posint")

            if whole(x) or whole(y):
                return app("?op:" + op, I.freeze(x), I.freeze(y))
            if op == "BitAnd":
                return self.logic("and", x, y)
            if op == "BitOr":
                return self.logic("or", x, y)
            return app("logical_xor", x, y)
        o = I.BIN.get(op)
        if o is None:
            return app("?op:" + op, I.freeze(x), I.freeze(y))
        if o in ("mod", "floordiv"):
            return I.arrbox(self.elem(I, o, x, y))
        if o == "dot":
            return self.matmul(I, x, y)
        if x.op == "ite" and (x.args[1].op in ("unbound",) or x.args[2].op == "unbound" or not same_rank(x)):
            c = x.args[0]
            return ite(c, self.binop(I, op, x.args[1], I.under(y, c)), self.binop(I, op, x.args[2], I.under(y, not_(c))))
        if y.op == "ite" and not same_rank(y):
            c = y.args[0]
            return ite(c, self.binop(I, op, I.under(x, c), y.args[1]), self.binop(I, op, I.under(x, not_(c)), y.args[2]))
        return I.arrbox(self.arith(I, o, x, y))

    def is_tuple(self, a):
        return a.op in ("list", "concat")

    def is_str(self, x):
        if is_str(x):
            return True
        if x.op == "app" and x.args[0] in ("strcat", "str", "fmt", "basename", "pathjoin", "strfmt", "str.strip", "str.join"):
            return True
        if x.op == "ite":
            return self.is_str(x.args[1]) or self.is_str(x.args[2])
        if x.op == "getitem" and self.is_str(x.args[0]):
            return True
        return kindof(x) == "str"

    def strcat(self, parts):
        out = []
        for p in parts:
            ps = p.args[1] if (p.op == "app" and p.args[0] == "strcat") else (p,)
            for q in ps:
                if is_str(q) and not cval(q):
                    continue
                if out and is_str(out[-1]) and is_str(q):
                    out[-1] = const(cval(out[-1]) + cval(q))
                else:
                    out.append(q)
        if not out:
            return const("")
        if len(out) == 1:
            return out[0]
        return mk("app", "strcat", tuple(out), ())

    def logic(self, k, x, y):
        if k == "and":
            return and_(x, y)
        return or_(x, y)

    def compare(self, I, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(I, a, b)
            return r if op == "Is" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(I, a, b)
            return r if op == "In" else not_(r)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == "obj":
                cls = I.objcls[x.args[0]]
                nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__" if not sw else "__gt__", "Gt": "__gt__" if not sw else "__lt__",
                      "LtE": "__le__", "GtE": "__ge__"}[op]
                if isinstance(cls, Class):
                    m, _ = cls.find(nm)
                    if m:
                        return I.call_func(m[1], [x, y], {})
        x, y = self.V(I, a), self.V(I, b)
        return self.cmp(I, op, x, y)

    def cmp(self, I, op, x, y):
        if x.op == "ite" and (is_const(x.args[1]) or is_const(x.args[2]) or not same_rank(x)):
            return ite(x.args[0], self.cmp(I, op, x.args[1], y), self.cmp(I, op, x.args[2], y))
        if y.op == "ite" and (is_const(y.args[1]) or is_const(y.args[2]) or not same_rank(y)):
            return ite(y.args[0], self.cmp(I, op, x, y.args[1]), self.cmp(I, op, x, y.args[2]))
        if x.op == "unbound" or y.op == "unbound":
            return mk("unbound")
        if op == "NotEq":
            return not_(self.cmp(I, "Eq", x, y))
        if op == "Gt":
            return self.cmp(I, "Lt", y, x)
        if op == "GtE":
            return self.cmp(I, "LtE", y, x)
        if x.op in ("list",) and rank(y) == 0 and rank(x) is not None:
            return lst(*[self.cmp(I, op, e, y) for e in x.args])
        if y.op in ("list",) and rank(x) == 0 and rank(y) is not None:
            return lst(*[self.cmp(I, op, x, e) for e in y.args])
        if op == "Eq":
            if x is y and x.op != "top":
                return TRUE
            if x.op == "app" and y.op == "app" and x.args[0] == y.args[0] == "len" and norm.alpha(x) is norm.alpha(y):
                return TRUE
            if is_const(x) and is_const(y):
                return const(cval(x) == cval(y)) if not (isinstance(cval(x), tuple) or isinstance(cval(y), tuple)) else FALSE
            if (is_str(x) and kindof(y) in SCALAR_KINDS) or (is_str(y) and kindof(x) in SCALAR_KINDS):
                return FALSE
            if x is NONE or y is NONE:
                o = y if x is NONE else x
                if kindof(o) is not None or o.op in ("add", "mul", "div", "list"):
                    return FALSE
            if x.op == "list" and y.op == "list":
                if len(x.args) != len(y.args):
                    return FALSE
                return and_(*[self.cmp(I, "Eq", p, q) for p, q in zip(x.args, y.args)])
            if is_const(x):
                x, y = y, x
            return mk("eq", x, y)
        if is_num(x) and is_num(y):
            return const(cval(x) < cval(y) if op == "Lt" else cval(x) <= cval(y))
        fx, fy = fval(x), fval(y)
        if fx is not None and fy is not None and (isinstance(cval(x), tuple) or isinstance(cval(y), tuple)):
            return const(fx < fy if op == "Lt" else fx <= fy)
        s = sign_of(sub(x, y))
        if s is not None:
            if s > 0:
                return FALSE
            if s < 0:
                return TRUE
        return mk("lt" if op == "Lt" else "le", x, y)

    def is_(self, I, a, b):
        if a is b:
            return TRUE
        if a.op == "ite":
            return ite(a.args[0], self.is_(I, a.args[1], b), self.is_(I, a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], self.is_(I, a, b.args[1]), self.is_(I, a, b.args[2]))
        if is_const(a) and is_const(b):
            return const(cval(a) is cval(b) or (cval(a) == cval(b) and type(cval(a)) is type(cval(b))))
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if y.op in ("obj", "ref", "func", "bound", "cls", "ext", "mod", "list", "add", "mul", "div", "neg", "native",
                            "lt", "le", "eq", "dict", "map", "record", "concat", "partial"):
                    return FALSE
                k = kindof(y)
                if k is not None and k != "any" and not k.startswith("opt"):
                    return FALSE
                if y.op == "getitem" and colelem(y):
                    return FALSE
                if y.op == "app" and (y.args[0] in norm.ELEMENTWISE or y.args[0] in ("len", "sum", "u", "interp", "strcat", "vals", "str")):
                    return FALSE
        if a.op in ("obj", "ref", "cls", "func", "ext") and b.op in ("obj", "ref", "cls", "func", "ext", "const"):
            return FALSE
        if is_const(a) and b.op in ("obj", "ref", "cls", "func", "ext"):
            return FALSE
        x, y = I.freeze(a), I.freeze(b)
        return mk("is", x, y)

    def contains(self, I, a, b):
        if b.op == "obj":
            cls = I.objcls[b.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__contains__")
                if m:
                    return I.truth(I.call_func(m[1], [b, a], {}))
        if b.op == "ite" and not I.isref(b):
            return ite(b.args[0], self.contains(I, a, b.args[1]), self.contains(I, a, b.args[2]))
        c = I.d(b) if I.isref(b) else b
        if c.op == "obj":
            c = I.iter_term(c)
        x = I.d(a) if I.isref(a) and I.kind(a) == "array" else a
        if c.op == "dict" and not c.args:
            return FALSE
        if c.op == "ite" and norm.dictroot(c.args[1]) and norm.dictroot(c.args[2]):
            return ite(c.args[0], self.contains(I, a, c.args[1]), self.contains(I, a, c.args[2]))
        if c.op == "dict":
            if any(k is x for k, _ in c.args):
                return TRUE
            if is_const(x):
                if any(k is x for k, _ in c.args):
                    return TRUE
                if all(is_const(k) for k, _ in c.args):
                    return FALSE
        if c.op == "setitem":
            if c.args[1] is x:
                return TRUE
            if norm.disjoint(c.args[1], x):
                return self.contains(I, a, c.args[0])
        if is_str(x) and (self.is_df(c) or I.isref(b) and b.op == "ref" and I.kind(b) == "df"):
            return self.has_col(c, x)
        if c.op == "app" and c.args[0] == "dfcolumns" and is_str(x):
            return self.has_col(c.args[1][0], x)
        if c.op == "list":
            if x in c.args and (is_const(x) or x.op in ("obj", "sym")):
                return TRUE
            if is_const(x) and all(is_const(y) for y in c.args):
                return FALSE
            return or_(*[self.cmp(I, "Eq", x, y) if not (x.op == "obj" or y.op == "obj") else self.is_(I, x, y) for y in c.args])
        if is_str(c) and is_str(x):
            return const(cval(x) in cval(c))
        return mk("in", I.freeze(x), I.freeze(c))

    # ---------------------------------------------------------------- subscripts
    def subscript(self, I, o, i):
        if o.op == "ite" and (I.isref(o) or I.hasobj(o)):
            return I.branch(o.args[0], lambda: self.subscript(I, o.args[1], i), lambda: self.subscript(I, o.args[2], i))
        if o.op == "ext":
            b = o.args[0]
            if b == "numpy.c_":
                items = i.args if i.op == "idxt" else (i,)
                return self.column_stack(I, [self.V(I, x) for x in items])
            if b == "numpy.r_":
                items = i.args if i.op == "idxt" else (i,)
                return self.hcat(I, [self.V(I, x) for x in items])
            if b in ("numpy.s_", "numpy.index_exp"):
                return i
            return top("subscript of " + b)
        if o.op == "native" and o.args[0] == "loc":
            return self.loc_get(I, o.args[1], i, o.args[2])
        if o.op == "obj":
            cls = I.objcls[o.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__getitem__")
                if m:
                    return I.call_func(m[1], [o, i], {})
            return top("subscript of object")
        if o.op == "record":
            return self.subscript(I, self.thaw(I, o), i)
        if o.op == "ref":
            k = I.kind(o)
            if k == "array":
                ci = canon_idx(i)
                if basic(ci):
                    val = getitem(I.d(o), ci)
                    r = rank(val)
                    if r == 0:
                        return val
                    return I.view(o, ("idx", ci))
                return self.box(I, getitem(I.d(o), ci))
            if k == "df":
                r = self.df_get(I, I.d(o), i)
                if is_str(i):
                    return I.view(o, ("idx", i)) if False else r
                return I.alloc(r, "df")
            x = I.d(o)
            if k == "dict":
                present = self.contains(I, i, o)
                if present is FALSE:
                    I.raise_("KeyError", None, show(i))
                if present is not TRUE:
                    I.may_raise("KeyError", lst(i))
                return getitem(x, i)
            if k == "list":
                if i.op == "slice":
                    return I.alloc(getitem(x, i), "list")
                n = as_int(i)
                if x.op == "list" and n is not None and not (-len(x.args) <= n < len(x.args)):
                    I.raise_("IndexError", None, show(i))
                return self.concat_get(x, i)
        x = I.d(o) if I.isref(o) else o
        if x.op == "const" and isinstance(cval(x), str):
            n = as_int(i)
            try:
                if n is not None:
                    return const(cval(x)[n])
                if i.op == "slice":
                    sl = [None if a is NONE else as_int(a) for a in i.args]
                    if all(a is NONE or as_int(a) is not None for a in i.args):
                        return const(cval(x)[slice(*sl)])
            except IndexError:
                I.raise_("IndexError", None, show(i))
        if self.is_df(x):
            return self.df_get(I, x, i)
        if x.op == "app" and x.args[0] == "row" and is_str(i):
            return getitem(self.col(I, x.args[1][0], i), x.args[1][1])
        if x.op == "app" and x.args[0] in ("groupby", "groups"):
            ks = x.args[1][1]
            keys = ks.args if ks.op == "list" else (ks,)
            want = I.d(i) if I.isref(i) else i
            if want.op == "list" and all(is_str(y) for y in want.args):
                return mk("app", x.args[0], (app("cols", x.args[1][0], lst(*(keys + want.args))), ks), x.args[2])
        if x.op == "list":
            n = as_int(i)
            if n is not None and not (-len(x.args) <= n < len(x.args)):
                I.raise_("IndexError", None, show(i))
        if I.isref(i):
            i = I.d(i)
        return self.box(I, self.concat_get(x, i)) if rank(x) and not basic(canon_idx(i)) else self.concat_get(x, i)

    def concat_get(self, x, i):
        n = as_int(i)
        if x.op == "concat" and n is not None:
            if n >= 0 and x.args[0].op == "list" and n < len(x.args[0].args):
                return x.args[0].args[n]
            if n < 0 and x.args[-1].op == "list" and -n <= len(x.args[-1].args):
                return x.args[-1].args[n]
        return getitem(x, i)

    def box(self, I, v):
        r = rank(v)
        if r is not None and r >= 1 and v.op not in ("sym",):
            return I.alloc(v, "array")
        return v

    # ---------------------------------------------------------------- pandas
    DF = {"read_csv", "dropna", "rows", "groupagg", "reset_index", "df", "cols", "drop_dup_rows", "sort_values"}

    def is_df(self, x):
        if x.op == "app" and x.args[0] in self.DF:
            return True
        if x.op == "setitem":
            return self.is_df(x.args[0])
        if x.op == "getitem":
            return self.is_df(x.args[0]) and not is_str(x.args[1])
        if x.op == "ite":
            return self.is_df(x.args[1]) and self.is_df(x.args[2])
        return kindof(x) == "df"

    def df_get(self, I, x, i):
        """column, columns or row selection"""
        if x.op == "ite":
            return ite(x.args[0], self.df_get(I, x.args[1], i), self.df_get(I, x.args[2], i))
        if x.op == "dict":
            if is_str(i):
                return getitem(x, i)
        if is_str(i):
            return self.col(I, x, i)
        if i.op == "list" and i.args and all(is_str(y) for y in i.args):
            for y in i.args:
                self.need_col(I, x, y)
            return app("cols", x, i)
        return app("rows", x, canon_idx(i))

    def has_col(self, x, c):
        """condition for a frame to have the column"""
        if x.op == "ite":
            return ite(x.args[0], self.has_col(x.args[1], c), self.has_col(x.args[2], c))
        if x.op == "setitem":
            return TRUE if x.args[1] is c else self.has_col(x.args[0], c)
        if x.op == "dict":
            return const(any(k is c for k, _ in x.args))
        if x.op == "app":
            f, pos, kw = x.args
            if f in ("rows", "dropna", "sort_values", "drop_dup_rows"):
                return self.has_col(pos[0], c)
            if f == "cols":
                return const(any(k is c for k in pos[1].args))
            if f == "reset_index":
                y = pos[0]
                drop = any(k == "drop" for k, v in kw)
                if y.op == "app" and y.args[0] == "groupagg" and any(k is c for k in y.args[1][1].args):
                    return const(not drop)
                if is_str(c) and cval(c) == "index" and not drop:
                    return TRUE
                return self.has_col(y, c)
            if f == "groupagg":
                if any(k is c for k in pos[1].args):
                    return FALSE
                return self.has_col(pos[0], c)
        return mk("in", c, x)

    def need_col(self, I, x, c):
        h = self.has_col(x, c)
        if h is TRUE:
            return
        if h is FALSE:
            I.raise_("KeyError", None, show(c))
        if I.handled("KeyError"):
            I.raise_("KeyError", not_(h), show(c))

    def col(self, I, x, c):
        self.need_col(I, x, c)
        return self.col_(I, x, c)

    def col_(self, I, x, c):
        if x.op == "app":
            f, pos, kw = x.args
            if f == "rows":
                return getitem(self.col_(I, pos[0], c), pos[1])
            if f == "cols":
                return self.col_(I, pos[0], c)
            if f == "reset_index":
                if is_str(c) and cval(c) == "index" and not kw:
                    return self.df_index(pos[0])
                y = pos[0]
                if y.op == "app" and y.args[0] == "groupagg":
                    keys = y.args[1][1]
                    if c in keys.args:
                        kc = lst(*[self.col_(I, y.args[1][0], k) for k in keys.args])
                        return mk("app", "gkey", (kc, num(keys.args.index(c))), y.args[2])
                return self.col_(I, y, c)
            if f == "groupagg":
                keys = pos[1]
                kc = lst(*[self.col_(I, pos[0], k) for k in keys.args])
                return mk("app", "gagg", (kc, self.col_(I, pos[0], c), pos[2]), kw)
        if x.op == "setitem":
            if x.args[1] is c:
                return x.args[2]
            if is_str(x.args[1]):
                return self.col_(I, x.args[0], c)
        if x.op == "ite":
            return ite(x.args[0], self.col_(I, x.args[1], c), self.col_(I, x.args[2], c))
        if x.op == "dict":
            return getitem(x, c)
        return app("col", x, c)

    def df_index(self, x):
        """row labels, None when they are the row numbers"""
        if x.op == "app":
            f, pos, kw = x.args
            if f == "reset_index" or f == "read_csv":
                return None
            if f == "cols":
                return self.df_index(pos[0])
            if f == "rows":
                ix = self.df_index(pos[0])
                if ix is None:
                    ix = app("arange", self.df_len(pos[0]))
                return getitem(ix, pos[1])
            return app("dfindex", x)
        if x.op == "setitem":
            return self.df_index(x.args[0])
        if x.op == "sym":
            return None
        return app("dfindex", x)

    def df_len(self, x):
        if x.op == "app":
            f, pos, kw = x.args
            if f in ("reset_index", "cols"):
                return self.df_len(pos[0])
            if f == "rows":
                c = self.some_col(pos[0])
                if c is not None:
                    return arr_len(getitem(c, pos[1]))
        if x.op == "setitem":
            return self.df_len(x.args[0])
        if x.op == "dict" and x.args:
            return arr_len(x.args[0][1])
        if x.op == "ite":
            return ite(x.args[0], self.df_len(x.args[1]), self.df_len(x.args[2]))
        return app("len", x)

    def some_col(self, x):
        while x.op == "app" and x.args[0] in ("cols", "reset_index") or x.op == "setitem":
            x = x.args[1][0] if x.op == "app" else x.args[0]
        if x.op == "dict" and x.args:
            return x.args[0][1]
        if x.op == "app" and x.args[0] == "rows":
            c = self.some_col(x.args[1][0])
            return None if c is None else getitem(c, x.args[1][1])
        return app("arange", app("len", x))

    def loc_get(self, I, df, i, which):
        x = I.d(df)
        if i.op == "slice" and as_int(i.args[2]) in (None, 1) and (i.args[2] is NONE or as_int(i.args[2]) == 1):
            lo, hi = i.args[0], i.args[1]
            if which == "iloc":
                return I.alloc(app("rows", x, mk("slice", lo, hi, NONE)), "df")
            ix = self.df_index(x)
            if ix is None:
                return I.alloc(app("rows", x, mk("slice", lo, hi if hi is NONE else add(hi, ONE), NONE)), "df")
            m = []
            if lo is not NONE:
                m.append(mk("le", lo, ix))
            if hi is not NONE:
                m.append(mk("le", ix, hi))
            if not m:
                return I.alloc(x, "df")
            return I.alloc(app("rows", x, m[0] if len(m) == 1 else mk("and", *m)), "df")
        if i.op == "idxt" and len(i.args) == 2 and is_str(i.args[1]):
            c = self.col(I, x, i.args[1])
            lab = i.args[0]
            if lab.op == "slice" and lab is FULL:
                return c
            base = I.dfbase.get(df.args[0], 0) if df.op == "ref" else 0
            if which == "loc" and is_scalar_index(lab):
                lab = sub(lab, num(base))
            return getitem(c, lab)
        if i.op == "idxt" and len(i.args) == 2 and i.args[1].op == "list" and all(is_str(y) for y in i.args[1].args):
            sub_ = x if i.args[0] is FULL else I.d(self.loc_get(I, df, i.args[0], which))
            for y in i.args[1].args:
                self.need_col(I, sub_, y)
            return I.alloc(app("cols", sub_, i.args[1]), "df")
        if is_maskish(i):
            return I.alloc(app("rows", x, canon_idx(i)), "df")
        if is_scalar_index(i) and (which == "iloc" or self.df_index(x) is None):
            return app("row", x, i)
        return I.alloc(app("?loc", x, i), "df")

    def loc_store(self, I, o, i, val):
        df, which = o.args[1], o.args[2]
        x = I.d(df)
        if x.op == "ite" or not (i.op == "idxt" and len(i.args) == 2 and is_str(i.args[1])):
            raise Unsupported("loc store")
        c = self.col(I, x, i.args[1])
        lab = i.args[0]
        if which in ("loc", "at") and is_scalar_index(lab):
            lab = sub(lab, num(I.dfbase.get(df.args[0], 0) if df.op == "ref" else 0))
        I.put(df, setitem(x, i.args[1], setitem(c, lab, val)))

    def native_setitem(self, I, o, cls, i, v):
        raise Unsupported("store into native object")

    # ---------------------------------------------------------------- attributes
    ARR_ATTR = {"T", "size", "shape", "ndim", "real", "imag", "dtype", "values", "flat", "nbytes", "index", "columns", "loc", "iloc",
                "at", "iat", "value", "name"}

    def static_hasattr(self, I, o, name):
        k = I.kind(o) if o.op == "ref" else kindof(o)
        if o.op == "ref" and k is None:
            b = I.d(o)
            if b.op in ("list", "map", "concat"):
                k = "array"
        if k == "list":
            return const(hasattr(list, name))
        if k == "dict":
            return const(hasattr(dict, name))
        if k == "str" or is_str(o):
            return const(hasattr(str, name))
        if k == "path":
            import pathlib
            return const(hasattr(pathlib.Path, name))
        if k == "array" or (k or "").endswith(("arr", "arr2")):
            return const(name in ("__len__", "__iter__", "shape", "size", "T", "dtype", "ndim", "copy", "astype", "real", "imag"))
        if o is NONE:
            return const(hasattr(None, name))
        if is_num(o) or k in SCALAR_KINDS:
            return const(hasattr(1.0, name))
        return mk("hasattr", I.freeze(o), name)

    def native_hasattr(self, I, o, cls, name):
        if cls == "file":
            return const(name in ("read", "write", "readline", "readlines", "close", "seek", "name", "__iter__"))
        return FALSE

    def native_attr(self, I, o, cls, name, default=None):
        if cls == "file":
            if name == "name":
                return app("filename", I.st.h[("a", o.args[0], "src")])
            return mk("native", "m", o, name)
        if default is not None:
            return default
        return mk("native", "m", o, name)

    def native_iter(self, I, v, cls):
        if cls == "file":
            return self.file_rest(I, v)
        raise Unsupported("iteration over " + str(cls))

    def file_iter(self, I, v):
        if v.op == "obj" and I.objcls[v.args[0]] == "file":
            return self.file_rest(I, v)
        return None

    def file_rest(self, I, f):
        oid = f.args[0]
        src, pos = I.st.h[("a", oid, "src")], I.st.h[("a", oid, "pos")]
        r = lines_from(src, pos)
        I.st.h[("a", oid, "pos")] = app("eof", src)
        return r

    def ref_attr(self, I, o, name):
        k = I.kind(o)
        if k == "array":
            x = I.d(o)
            if name == "T":
                if rank(x) == 1:
                    return o
                return I.view(o, ("T",))
            if name in ("real", "imag"):
                return I.view(o, (name,))
            return self.arr_attr(I, o, x, name)
        if k == "df":
            if name in ("loc", "iloc", "at", "iat"):
                return mk("native", "loc", o, "loc" if name in ("loc", "at") else "iloc")
            if name == "index":
                x = I.d(o)
                ix = self.df_index(x)
                return app("arange", self.df_len(x)) if ix is None else ix
            if name == "empty":
                return mk("eq", self.df_len(I.d(o)), ZERO)
            if name == "values":
                return app("dfvalues", I.d(o))
            if name == "columns":
                return app("dfcolumns", I.d(o))
            if name == "shape":
                return lst(self.df_len(I.d(o)), app("ncols", I.d(o)))
            if name == "size":
                return app("size", I.d(o))
            return mk("native", "m", o, name)
        return mk("native", "m", o, name)

    def arr_attr(self, I, o, x, name):
        if name == "size":
            return self.size(x)
        if name == "shape":
            return self.shape(x)
        if name == "ndim":
            r = rank(x)
            return num(r) if r is not None else app("ndim", x)
        if name == "dtype":
            return app("dtype", x)
        if name == "values":
            return o
        if name == "flat":
            return x
        if name in ("iloc", "iat") and rank(x) == 1:
            return o           # positions
        return mk("native", "m", o, name)

    def ref_setattr(self, I, o, name, v):
        if name in ("real", "imag"):
            I.put(o, app("set" + name, I.d(o), self.V(I, v)))
            return
        if name in ("shape", "index", "columns", "name", "flags"):
            return
        raise Unsupported("attribute store on container")

    def term_attr(self, I, o, name, default=None):
        if o.op == "getitem":
            o = elem_record(o) or o
        if o.op == "record":
            return I.getattr_(self.thaw(I, o), name, I.fr, default)
        k = kindof(o)
        if k == "param":
            if name in ("value", "vary", "bounds", "name", "chain", "stderr", "_deps", "constraint", "_vary"):
                return I.field(o, name)
            return mk("native", "pm", o, name)
        if k in ("model", "object", "any", "optobj", "user"):
            if name in ("logp", "parameters"):
                return mk("native", "um", o, name) if name == "logp" else app("u:parameters:params", o)
            return I.field(o, name)
        if k == "params":
            if name == "parameters":
                return o
            return mk("native", "m", o, name)
        if o.op == "getitem" and (o.args[0].op in ("app", "sym") and self.is_paramseq(o.args[0])):
            if name in ("value", "vary", "bounds", "name", "chain", "stderr", "_deps", "constraint", "_vary"):
                return I.field(o, name)
            return mk("native", "pm", o, name)
        if is_const(o) and cval(o) is None:
            if default is not None:
                return default
            I.raise_("AttributeError", None, name)
        if o.op == "app" and o.args[0] == "finfo":
            if name == "eps":
                return EPS
            return app("finfo." + name)
        if k in ("str", "path") or self.is_str(o):
            if k == "path" and name in ("name", "stem", "suffix", "parent"):
                return app("path." + name, o)
            return mk("native", "m", o, name)
        if name == "T":
            return transpose(o) if rank(o) is not None else app("T", o)
        if name in ("real", "imag"):
            return self.elem(I, name, self.numval(I, o))
        if self.is_df(o):
            c = I.alloc(o, "df")
            return self.ref_attr(I, c, name)
        if name in ("size", "shape", "ndim", "dtype", "values", "flat") or (name in ("iloc", "iat") and rank(o) == 1):
            return self.arr_attr(I, o, o, name)
        if o.op == "app" and str(o.args[0]).startswith("plt"):
            return mk("native", "plt", o, name)
        if o.op == "ext":
            return self.ext_attr(I, o, name)
        if o.op == "app" and o.args[0] in ("exception", "caught"):
            return app("excattr", o, const(name))
        if default is not None and (is_num(o) or k in SCALAR_KINDS or rank(o) is not None):
            return default
        if name in ("lb", "ub") and o.op == "list" and len(o.args) == 2 and is_num(o.args[name == "ub"]):
            return o.args[name == "ub"]
        return mk("native", "m", o, name)

    def is_paramseq(self, s):
        if s.op == "sym":
            return s.args[1] == "params"
        if s.op == "app":
            f = s.args[0]
            if f == "uniq":
                return True
            if f == "sortby":
                return self.is_paramseq(s.args[1][0])
            if isinstance(f, str) and f.startswith("u:") and f.endswith(":params"):
                return True
        if s.op in ("concat", "list"):
            return all(self.is_paramseq(x) or kindof(x) == "param" or x.op == "obj" for x in s.args)
        if s.op == "map":
            e = s.args[2]
            return e.op == "getitem" and self.is_paramseq(e.args[0])
        return False

    def thaw(self, I, r):
        """object for a frozen record"""
        key = ("thaw", r.id)
        o = I.modcache.get(key)
        if o is not None and any(k[0] == "a" and k[1] == o.args[0] for k in I.st.h):
            return o
        cname, at = r.args
        if cname in I.classes:
            o = I.newobj(I.classes[cname])
        else:
            o = I.newobj(cname)
        for a, v in at:
            I.st.h[("a", o.args[0], a)] = self.thaw_val(I, v)
        I.modcache[key] = o
        return o

    def thaw_val(self, I, v):
        r = rank(v)
        if r is not None and r >= 1:
            return I.alloc(v, "array")
        if v.op == "dict":
            return I.alloc(v, "dict")
        return v

    # ---------------------------------------------------------------- shapes
    def size(self, x):
        r = rank(x)
        if r == 1:
            return arr_len(x)
        if r == 0:
            return ONE
        if x.op == "list" and all(y.op == "list" for y in x.args) and x.args:
            return num(len(x.args) * len(x.args[0].args))
        if x.op == "ite":
            return ite(x.args[0], self.size(x.args[1]), self.size(x.args[2]))
        if x.op == "app" and x.args[0] == "vals":
            return arr_len(x)
        return app("size", x)

    def shape(self, x):
        r = rank(x)
        if r == 0:
            return lst()
        if r == 1:
            return lst(arr_len(x))
        if r == 2:
            return lst(arr_len(x), norm.ncols(x))
        return app("shape", x)

    # ---------------------------------------------------------------- constructors
    def column_stack(self, I, xs):
        if len(xs) == 1:
            x = xs[0]
            return getitem(x, mk("idxt", FULL, NONE)) if rank(x) == 1 else x
        if all(x.op == "list" for x in xs) and all(rank(x) == 1 for x in xs) and len({len(x.args) for x in xs}) == 1:
            return lst(*[lst(*r) for r in zip(*[x.args for x in xs])])
        n = None
        for x in xs:
            if rank(x) is not None and rank(x) >= 1:
                n = arr_len(x)
                break
        xs = [app("full", n, x) if (rank(x) == 0 and n is not None) else x for x in xs]
        return transpose(lst(*xs))

    def hcat(self, I, xs):
        out = []
        for x in xs:
            if rank(x) == 0:
                out.append(lst(x))
            else:
                out.append(x)
        return concat(*out)

    def asarray(self, I, v, copy):
        """array from an arbitrary value; aliasing kept unless copy"""
        if v.op == "ref" and I.kind(v) == "array":
            if copy:
                return I.alloc(I.d(v), "array")
            return v
        if v.op == "ite" and I.isref(v) and not copy:
            return v
        x = self.V(I, v)
        if v.op == "ref" and I.kind(v) == "df":
            return I.alloc(app("dfvalues", x), "array")
        if rank(x) == 0:
            return x
        if x.op == "flat" or x.op == "map" or x.op == "list" or x.op == "concat":
            x = self.V(I, self.deep(I, x))
        return I.alloc(x, "array")

    def deep(self, I, x):
        if x.op == "list":
            return lst(*[self.deep(I, I.d(y) if I.isref(y) else y) for y in x.args])
        if x.op == "map":
            e = I.d(x.args[2])
            return mkmap(x.args[0], x.args[1], self.deep(I, e), x.args[3])
        if x.op == "concat":
            return concat(*[self.deep(I, y) for y in x.args])
        return x

    def dot(self, I, x, y):
        if rank(x) == 1 and rank(y) == 1:
            return self.reduce(I, "sum", self.arith(I, "mul", x, y))
        return app("dot", x, y)

    def reduce(self, I, fn, x, axis=None):
        if axis is None or axis is NONE:
            if x.op == "list" and rank(x) == 1:
                if fn == "sum":
                    r = ZERO
                    for y in x.args:
                        r = add(r, y)
                    return r
                if fn == "any":
                    return or_(*[I.truth(y) for y in x.args])
                if fn == "all":
                    return and_(*[I.truth(y) for y in x.args])
                if fn == "prod":
                    r = ONE
                    for y in x.args:
                        r = mul(r, y)
                    return r
            if x.op == "ite":
                return ite(x.args[0], self.reduce(I, fn, x.args[1]), self.reduce(I, fn, x.args[2]))
            if fn in ("any", "all"):
                if rank(x) == 0 or x is NONE:
                    return I.truth(x)
                k = kindof(x)
                if k == "posarr" or k == "posarr2" or positive(x):
                    return not_(self.cmp(I, "Eq", arr_len(x), ZERO)) if fn == "any" else TRUE
                if x.op == "list":
                    parts = [self.reduce(I, fn, y) for y in x.args]
                    return or_(*parts) if fn == "any" else and_(*parts)
                if fn == "all":
                    return not_(app("any", not_(boolarr(x))))
                return app("any", boolarr(x))
            if fn == "sum" and rank(x) == 0:
                return x
            if fn == "sum" and x.op == "concat":
                r = ZERO
                for y in x.args:
                    r = add(r, self.reduce(I, "sum", y))
                return r
            if fn == "sum" and x.op == "map":
                if rank(x.args[2]) == 0:
                    return mksum(x.args[0], x.args[1], x.args[2], x.args[3])
            return app(fn, x)
        ax = as_int(axis)
        if x.op == "list" and ax == 0 and fn == "sum":
            r = ZERO
            for y in x.args:
                r = self.arith(I, "add", r, y) if r is not ZERO else y
            return r
        if ax == 0 and fn == "sum" and rank(x) == 2 and arr_len(x) is ONE:
            row = norm.getitem(x, ZERO)
            return norm.lst(row) if rank(row) == 0 and norm.ncols(x) is ONE else row
        return app(fn, x, axis=axis)

    # ---------------------------------------------------------------- calls
    def call_ext(self, I, name, pos, kw, node):
        name = self.canon_name(name)
        if kw and not isinstance(kw, Kw):
            kw = Kw(kw)
            r = self.call_ext1(I, name, pos, kw, node)
            ign = kw.ignored(name)
            if ign:
                return top(f"option {ign[0]} of {name}")
            return r
        return self.call_ext1(I, name, pos, kw, node)

    def call_ext1(self, I, name, pos, kw, node):
        if any(p.op == "star" for p in pos):
            pos2 = []
            for p in pos:
                if p.op == "star" and p.args[0].op == "list":
                    pos2.extend(p.args[0].args)
                else:
                    pos2.append(p)
            pos = pos2
        if name in UNARY and pos:
            x = self.V(I, pos[0])
            if len(pos) == 2 and name.startswith("numpy."):
                kw = dict(kw, out=pos[1])
            r = self.elem(I, UNARY[name], x)
            return self.out(I, kw, r)
        if name in BINARY and len(pos) >= 2:
            if len(pos) == 3:
                kw = dict(kw, out=pos[2])
            return self.out(I, kw, self.V(I, I.binop(BINARY[name], pos[0], pos[1])))
        if name in CMP:
            return self.compare(I, CMP[name], pos[0], pos[1])
        if name in DEG:
            x = self.V(I, pos[0])
            k = div(num(180), PI) if DEG[name] else div(PI, num(180))
            return self.arith(I, "mul", x, k)
        short = name.split(".", 1)[-1] if name.startswith("builtins.") else None
        if short == "dict.fromkeys" and len(pos) == 1:
            x = self.V(I, pos[0])
            if rank(x) == 1 and x.op != "list":
                return app("dropdup", x)       # an ordered set: only ever iterated
            if x.op == "list" and all(y.op == "obj" or is_str(y) for y in x.args):
                return lst(*dict.fromkeys(x.args))
        if short is not None:
            f = getattr(self, "b_" + short, None)
            if f is not None:
                return f(I, pos, kw, node)
            if short in EXC_PARENTS or short.endswith(("Error", "Warning", "Exception")):
                return app("exception:" + short)
        if name.startswith("numpy."):
            f = getattr(self, "np_" + name[6:].replace(".", "_"), None)
            if f is not None:
                return f(I, pos, kw, node)
        f = getattr(self, "x_" + name.replace(".", "_"), None)
        if f is not None:
            return f(I, pos, kw, node)
        if name.startswith("warnings.") or name.startswith("logging.") or name in ("numpy.errstate", "numpy.seterr", "contextlib.suppress"):
            return app("ctx", const(name))
        if name.startswith(("matplotlib.pyplot.cm.", "matplotlib.cm.", "matplotlib.colormaps")):
            return app("colours:" + name, *[self.V(I, p) for p in pos])       # no effect on any figure
        if name.startswith("matplotlib"):
            return self.effect(I, name, pos, kw)
        if name.startswith(("object.", "builtins.object.")) or name.endswith(".__init__") or name.endswith(".__init_subclass__"):
            if name.endswith("__setattr__") and len(pos) == 3 and is_str(pos[1]):
                I.st.h[("a", pos[0].args[0], cval(pos[1]))] = pos[2]
            return NONE
        if name.startswith("numpy.") and name[6:] in norm.PURE_NP and pos and set(kw) <= {"axis", "side", "n", "shift", "right", "period", "mode", "discont", "q", "dx"} \
                and not any(p.op in ("func", "obj", "star") for p in pos):
            for q in kw:
                kw.get(q)
            return mk("app", "np:" + name[6:], tuple(self.V(I, p) for p in pos), tuple(sorted((k, I.freeze(v)) for k, v in kw.items())))
        I.unknown.add("library call " + name)
        for p in pos:
            if p.op == "func":
                pass
        return mk("app", "?" + name, tuple(I.freeze(p) for p in pos),
                  tuple(sorted((str(k), I.freeze(v)) for k, v in kw.items())))

    def out(self, I, kw, r):
        o = kw.get("out")
        if o is not None and o is not NONE:
            w = kw.get("where")
            if w is not None:
                r = where(self.V(I, w), r, self.V(I, o))
            I.put(o, r)
            return o
        return r

    def effect(self, I, name, pos, kw, recv=None):
        key = ("e", "log")
        log = I.st.h.get(key) or lst()
        ev = mk("app", "plt:" + name.split(".")[-1], tuple(([I.freeze(recv)] if recv is not None else []) + [I.freeze(p) for p in pos]),
                tuple(sorted((str(k), I.freeze(v)) for k, v in kw.items())))
        I.st.h[key] = concat(log, lst(ev))
        return ev

    def call_opaque(self, I, f, pos, kw, node):
        if f.op == "app" and str(f.args[0]).startswith("plt"):
            return self.effect(I, "call", pos, kw, f)
        k = kindof(f)
        if k == "model" or k == "callable":
            st = []
            for a in ("value", "_flip_delta"):
                m = I.st.h.get(("F", a))
                st.append(m if m is not None else sym("F." + a, "map"))
            args = tuple(I.freeze(p) for p in pos)
            if k == "model":
                I.may_raise("AnyException", lst(f, *args))
                r = app("u:model:any", f, *args, *st)
                n = None
                if args and rank(args[0]) == 2:
                    n = arr_len(args[0])
                return lst(I.alloc(app("u:mpsi:arr", f, *args, *st), "array"), I.alloc(app("u:mdelta:arr", f, *args, *st), "array"))
            return app("u:call:real", f, *args, *st)
        I.unknown.add("call of " + show(f)[:60])
        return mk("app", "?call", (I.freeze(f),) + tuple(I.freeze(p) for p in pos), ())

    def call_native(self, I, f, pos, kw, node):
        tag, recv, name = f.args
        if tag == "plt":
            return self.effect(I, name, pos, kw, recv)
        if tag == "pm":       # parameter method
            if name == "logp":
                return app("u:plogp:real", recv, I.field(recv, "value"))
            return app("?param." + name, recv)
        if tag == "um":
            m = I.st.h.get(("F", "value")) or sym("F.value", "map")
            return app("u:mlogp:real", recv, m)
        return self.method(I, recv, name, pos, kw, node)

    # -- methods of containers, arrays, strings, files, frames
    def method(self, I, o, name, pos, kw, node):
        if kw and not isinstance(kw, Kw):
            kw = Kw(kw)
            r = self.method(I, o, name, pos, kw, node)
            ign = kw.ignored("." + name)
            if ign:
                raise Unsupported(f"option {ign[0]} of method {name}")
            return r
        if o.op == "obj" and I.objcls[o.args[0]] == "file":
            return self.file_method(I, o, name, pos, kw)
        if o.op == "ite" and I.isref(o):
            return I.branch(o.args[0], lambda: self.method(I, o.args[1], name, pos, kw, node),
                            lambda: self.method(I, o.args[2], name, pos, kw, node))
        k = I.kind(o) if o.op == "ref" else None
        x = I.d(o) if I.isref(o) else o
        if k is None and name in ("update", "pop", "setdefault", "popitem", "clear") and anydict(x):
            raise Unsupported("update of a dictionary that a list may share")
        if k is None and name in ("append", "extend", "insert", "sort", "reverse", "remove", "clear"):
            raise Unsupported("update of a container inside another one")
        if k == "list":
            r = self.list_method(I, o, x, name, pos, kw)
            if r is not None:
                return r
        if k == "dict" or x.op == "dict" or kindof(x) == "dict":
            r = self.dict_method(I, o, x, name, pos, kw)
            if r is not None:
                return r
        if k == "df" or self.is_df(x):
            r = self.df_method(I, o, x, name, pos, kw)
            if r is not None:
                return r
        if x.op == "app" and x.args[0] in ("groupby", "groups"):
            r = self.group_method(I, x, name, pos, kw)
            if r is not None:
                return r
        if self.is_str(x) or (name in STRM and k is None and rank(x) is None):
            r = self.str_method(I, x, name, pos, kw)
            if r is not None:
                return r
        if name == "invcdf":
            return app("u:invcdf:real", I.freeze(x), self.V(I, pos[0]))
        if name == "logp" and pos:
            return app("u:blogp:real", I.freeze(x), self.V(I, pos[0]))
        if o.op == "sym" and o.args[1] == "params" or self.is_paramseq(x):
            if name == "pgen":
                return app("u:pgen:list", I.freeze(x), *[I.freeze(p) for p in pos], *[I.freeze(v) for v in kw.values()])
        r = self.arr_method(I, o, x, name, pos, kw, node)
        if r is not None:
            return r
        I.unknown.add("method " + name)
        return mk("app", "?." + name, (I.freeze(x),) + tuple(I.freeze(p) for p in pos),
                  tuple(sorted((str(q), I.freeze(v)) for q, v in kw.items())))

    def arr_method(self, I, o, x, name, pos, kw, node):
        if name in ("copy", "to_numpy"):
            return self.asarray(I, o, True)
        if name in ("sum", "mean", "min", "max", "std", "var", "any", "all", "prod", "argmin", "argmax", "cumsum", "ravel", "flatten",
                    "squeeze", "reshape", "transpose", "dot", "clip", "round", "argsort", "nonzero", "diagonal", "repeat",
                    "conj", "conjugate", "median", "astype"):
            f = getattr(self, "np_" + name)
            return f(I, [o] + pos, kw, node)
        if name == "view" and not pos and not kw:
            return o
        if name == "tolist":
            return I.alloc(x, "list")
        if name in ("tobytes", "tostring") and not pos:
            return app("tobytes", x)
        if name == "item" and not pos:
            return getitem(x, ZERO) if rank(x) == 1 else x
        if name == "fill":
            I.put(o, setitem(x, FULL, self.V(I, pos[0])))
            return NONE
        if name == "sort":
            I.put(o, app("sort", x))
            return NONE
        if name in ("setflags",):
            return NONE
        if name == "unique":
            return app("dropdup", x)
        if name == "drop_duplicates":
            k = kw.get("keep")
            if k is not None and k is not const("first"):
                return app("dropdup_keep", x, I.freeze(k))
            return app("dropdup", x)
        if name in ("eq", "ne", "lt", "le", "gt", "ge") and len(pos) == 1 and not kw:
            return self.compare(I, {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}[name], x, self.V(I, pos[0]))
        if name == "between" and rank(x) == 1 and len(pos) + len(kw) >= 2:
            v = dict(zip(("left", "right", "inclusive"), pos), **{q: kw.get(q) for q in ("left", "right", "inclusive") if q in kw})
            inc = v.get("inclusive", const("both"))
            if is_str(inc) and set(v) >= {"left", "right"}:
                lo = self.compare(I, "GtE" if cval(inc) in ("both", "left") else "Gt", x, self.V(I, v["left"]))
                hi = self.compare(I, "LtE" if cval(inc) in ("both", "right") else "Lt", x, self.V(I, v["right"]))
                return and_(lo, hi)
        if name in ("add", "sub", "mul", "div", "truediv", "pow", "mod") and rank(x) == 1 and len(pos) == 1 and not kw:
            return self.V(I, I.binop({"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "truediv": "Div", "pow": "Pow", "mod": "Mod"}[name], x, pos[0]))
        if name in ("isna", "isnull", "notna", "notnull") and rank(x) is not None and not pos:
            r = app("isnan", x)
            return r if name in ("isna", "isnull") else not_(r)
        if name == "abs" and not pos and rank(x) is not None:
            return app("abs", x)
        if name == "isin" and len(pos) == 1 and rank(x) is not None:
            return app("isin", x, self.V(I, pos[0]))
        if name == "total_seconds":
            return app("total_seconds", x)
        if name in ("reset_index", "dropna") and rank(x) is not None:
            return x
        return None

    def list_method(self, I, o, x, name, pos, kw):
        if name == "append":
            I.put(o, concat(x, lst(pos[0])))
            return NONE
        if name == "extend":
            I.put(o, concat(x, I.iter_term(pos[0])))
            return NONE
        if name == "insert":
            n = as_int(self.V(I, pos[0]))
            if n == 0:
                I.put(o, concat(lst(pos[1]), x))
                return NONE
            if x.op == "list" and n is not None:
                l = list(x.args)
                l.insert(n, pos[1])
                I.put(o, lst(*l))
                return NONE
            I.put(o, app("insert", x, self.V(I, pos[0]), pos[1]))
            return NONE
        if name == "copy":
            return I.alloc(x, "list")
        if name == "pop":
            n = as_int(self.V(I, pos[0])) if pos else -1
            if x.op == "list" and n is not None and -len(x.args) <= n < len(x.args):
                l = list(x.args)
                v = l.pop(n)
                I.put(o, lst(*l))
                return v
            v = getitem(x, num(n) if n is not None else self.V(I, pos[0]))
            if n == 0:
                I.put(o, getitem(x, mk("slice", ONE, NONE, NONE)))
            elif n == -1:
                I.put(o, getitem(x, mk("slice", NONE, num(-1), NONE)))
            else:
                I.put(o, app("popped", x, num(n) if n is not None else self.V(I, pos[0])))
            return v
        if name == "reverse":
            I.put(o, getitem(x, norm.REV) if x.op != "list" else lst(*reversed(x.args)))
            return NONE
        if name == "clear":
            I.put(o, lst())
            return NONE
        if name == "sort":
            I.put(o, self.sorting(I, x, kw))
            return NONE
        if name == "index":
            if x.op == "list" and is_const(pos[0]) and all(is_const(y) for y in x.args):
                if pos[0] in x.args:
                    return num(x.args.index(pos[0]))
                I.raise_("ValueError")
            I.may_raise("ValueError", lst(x, pos[0]))
            return app("index", I.freeze(x), I.freeze(pos[0]))
        if name == "count":
            return app("countof", I.freeze(x), I.freeze(pos[0]))
        if name == "remove":
            I.put(o, app("removed", x, I.freeze(pos[0])))
            return NONE
        return None

    def dict_method(self, I, o, x, name, pos, kw):
        if name == "get":
            d = pos[1] if len(pos) > 1 else kw.get("default", NONE)
            c = self.contains(I, pos[0], o if I.isref(o) else x)
            if c is FALSE:
                return d
            return ite(c, getitem(x, pos[0]), d)
        if name == "items":
            if x.op == "dict":
                return lst(*[lst(k, v) for k, v in x.args])
            if x.op == "dictmap":
                i, dom, key, v, g = x.args
                return mk("map", i, dom, lst(key, v), g)
            return mk("items", x)
        if name == "keys":
            if x.op == "dict":
                return lst(*[k for k, v in x.args])
            if x.op == "dictmap":
                i, dom, key, v, g = x.args
                return mkmap(i, dom, key, g)
            return app("keys", x)
        if name == "values":
            if x.op == "dict":
                return lst(*[v for k, v in x.args])
            if x.op == "dictmap":
                i, dom, key, v, g = x.args
                return mkmap(i, dom, v, g)
            return app("values", x)
        if name == "update":
            new = x
            if pos:
                y = self.pairs(I, pos[0])
                if y.op == "dict":
                    for k, v in y.args:
                        new = setitem(new, k, v)
                else:
                    new = mk("dictmerge", new, y) if not (new.op == "dict" and not new.args) else y
            for k, v in kw.items():
                new = setitem(new, const(k), v)
            I.put(o, new)
            return NONE
        if name == "copy":
            return I.alloc(x, "dict")
        if name == "pop":
            v = getitem(x, pos[0])
            I.put(o, norm.delitem(x, pos[0]))
            if len(pos) > 1:
                c = self.contains(I, pos[0], x)
                return ite(c, v, pos[1])
            return v
        if name == "setdefault":
            c = self.contains(I, pos[0], o)
            d = pos[1] if len(pos) > 1 else NONE
            if I.isref(d) and I.loopentry:
                raise Unsupported("a container kept in a dictionary by a loop")
            if c is TRUE:
                return getitem(x, pos[0])
            if c is FALSE:
                I.put(o, setitem(x, pos[0], d))
                return d
            v = ite(c, getitem(x, pos[0]), d)
            I.put(o, setitem(x, pos[0], v))
            return v
        if name == "clear":
            I.put(o, mk("dict"))
            return NONE
        return None

    AGG = {"mean", "median", "sum", "min", "max", "first", "last", "std"}

    def df_method(self, I, o, x, name, pos, kw):
        def new(t):
            return I.alloc(t, "df")
        fz = lambda v: I.freeze(v)
        if name == "dropna":
            return new(mk("app", "dropna", (x,), tuple(sorted((k, fz(v)) for k, v in kw.items()
                          if not (k == "axis" and as_int(fz(v)) == 0) and not (k == "how" and fz(v) is const("any"))))))
        if name == "reset_index":
            drop = kw.get("drop")
            if drop is not None and I.truth(drop) is TRUE:
                return new(mk("app", "reset_index", (x,), (("drop", TRUE),)))
            return new(app("reset_index", x))
        if name == "groupby":
            keys = I.freeze(pos[0] if pos else kw["by"])
            extra = tuple(sorted((k, fz(v)) for k, v in kw.items() if k != "by" and not (k == "sort" and fz(v) is TRUE)
                                 and not (k == "as_index" and fz(v) is TRUE)))
            if keys.op != "list":
                return mk("app", "groups", (x, keys), extra)
            for y in keys.args:
                self.need_col(I, x, y)
            return mk("app", "groupby", (x, keys), extra)
        if name == "iterrows":
            return app("iterrows", x)
        if name == "copy":
            c = new(x)
            if o.op == "ref" and o.args[0] in I.dfbase:
                I.dfbase[c.args[0]] = I.dfbase[o.args[0]]
            return c
        if name == "drop_duplicates":
            sub = fz(pos[0]) if pos else (fz(kw["subset"]) if "subset" in kw else None)
            if sub is not None and set(kw) <= {"subset"} and len(pos) <= 1:
                keys = sub.args if sub.op == "list" else (sub,) if is_str(sub) else ()
                if keys and all(is_str(y) for y in keys):
                    for y in keys:
                        self.need_col(I, x, y)
                    return new(app("rows", x, app("firsts", *[self.col(I, x, y) for y in keys])))
            return new(mk("app", "drop_dup_rows", (x,) + tuple(fz(p) for p in pos), tuple(sorted((k, fz(v)) for k, v in kw.items()))))
        if name == "sort_values":
            return new(mk("app", "sort_values", (x,) + tuple(fz(p) for p in pos), tuple(sorted((k, fz(v)) for k, v in kw.items()))))
        if name == "to_numpy":
            return I.alloc(app("dfvalues", x), "array")
        if name == "get" and is_str(pos[0]):
            h = self.has_col(x, pos[0])
            return ite(h, self.col_(I, x, pos[0]), pos[1] if len(pos) > 1 else NONE)
        return None

    def group_method(self, I, x, name, pos, kw):
        """aggregation of a grouped frame"""
        df, keys = x.args[1]
        if keys.op != "list":
            keys = lst(keys)
        if name in ("agg", "aggregate") and pos and is_str(pos[0]):
            name, pos = cval(pos[0]), []
        if name not in self.AGG:
            return None
        ex = dict(x.args[2])
        as_index = ex.pop("as_index", TRUE)
        if is_str(x.args[1][1]) and name not in self.AGG:
            return None
        t = mk("app", "groupagg", (df, keys, const(name)), tuple(sorted(ex.items())))
        if as_index is FALSE:
            t = app("reset_index", t)
        return I.alloc(t, "df")

    def str_method(self, I, x, name, pos, kw):
        ps = [I.freeze(p) for p in pos]
        if is_str(x) and all(is_const(p) and (is_str(p) or cval(p) is None or is_num(p)) for p in ps) and not kw and name in STRM:
            args = [int(cval(p)) if is_num(p) else cval(p) for p in ps]
            try:
                r = getattr(cval(x), name)(*args)
            except Exception:
                r = None
            if isinstance(r, (str, bool)):
                return const(r)
            if isinstance(r, int):
                return num(r)
            if isinstance(r, (list, tuple)):
                return I.alloc(lst(*[const(q) for q in r]), "list")
        if name == "join":
            seq = I.freeze(I.iter_term(pos[0]))
            if seq.op == "list":
                out = []
                for n, e in enumerate(seq.args):
                    if n:
                        out.append(x)
                    out.append(e)
                return self.strcat(out)
            return app("str.join", x, seq)
        if name == "format":
            if is_str(x):
                r = self.format_parts(I, cval(x), pos, {str(k): v for k, v in kw.items()})
                if r is not None:
                    return r
            return mk("app", "strfmt", (x,) + tuple(ps), tuple(sorted((str(k), I.freeze(v)) for k, v in kw.items())))
        if name in STRM:
            if name in ("startswith", "endswith"):
                return app(name, x, *ps)
            return mk("app", "str." + name, (x,) + tuple(ps), tuple(sorted((str(k), I.freeze(v)) for k, v in kw.items())))
        return None

    def file_method(self, I, o, name, pos, kw):
        oid = o.args[0]
        src, p = I.st.h[("a", oid, "src")], I.st.h[("a", oid, "pos")]
        if name == "readline":
            I.st.h[("a", oid, "pos")] = add(p, ONE)
            return getitem(app("lines", src), p)
        if name == "readlines":
            I.st.h[("a", oid, "pos")] = app("eof", src)
            return I.alloc(lines_from(src, p), "list")
        if name == "read":
            I.st.h[("a", oid, "pos")] = app("eof", src)
            return app("text", lines_from(src, p))
        if name == "seek":
            I.st.h[("a", oid, "pos")] = ZERO if as_int(pos[0]) == 0 else app("seekpos", src, self.V(I, pos[0]))
            return NONE
        if name in ("close", "flush"):
            return NONE
        if name == "tell":
            return app("tell", src, p)
        if name in ("write", "writelines"):
            self.effect(I, "write", [app("dest", src)] + pos, kw)
            return NONE
        return app("?file." + name, src)

    def source(self, I, f):
        """line sequence denoted by a path or an open file"""
        if f.op == "obj" and I.objcls[f.args[0]] == "file":
            return self.file_rest(I, f)
        x = I.d(f) if I.isref(f) else f
        k = kindof(x)
        if k in ("str", "path") or self.is_str(x) or (x.op == "app" and str(x.args[0]).startswith("path")):
            return app("lines", x)
        if x.op == "app" and x.args[0] == "StringIO":
            return x.args[1][0]
        return x

    # ---------------------------------------------------------------- builtins
    def b_len(self, I, pos, kw, node):
        o = pos[0]
        if o.op == "obj":
            cls = I.objcls[o.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__len__")
                if m:
                    return I.call_func(m[1], [o], {})
        if o.op == "ite":
            return ite(o.args[0], self.b_len(I, [o.args[1]], kw, node), self.b_len(I, [o.args[2]], kw, node))
        x = I.d(o) if I.isref(o) else o
        if x.op == "obj":
            return self.b_len(I, [x], kw, node)
        if self.is_df(x) or (o.op == "ref" and I.kind(o) == "df"):
            return self.df_len(x)
        if x is NONE:
            I.raise_("TypeError")
        return arr_len(self.seqlen_norm(I, x))

    def seqlen_norm(self, I, x):
        return x

    def b_float(self, I, pos, kw, node):
        if not pos:
            return ZERO
        v = pos[0]
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__float__")
                if m:
                    return I.call_func(m[1], [v], {})
        x = self.V(I, v)
        if is_str(x):
            try:
                return num(float(cval(x)))
            except ValueError:
                I.raise_("ValueError")
        if x is NONE:
            I.raise_("TypeError")
        if x.op == "ite":
            return I.branch(x.args[0], lambda: self.b_float(I, [x.args[1]], kw, node), lambda: self.b_float(I, [x.args[2]], kw, node))
        if x.op == "getitem" and x.args[1].op == "slice" and rank(x) is None:
            return app("float", x)         # only text can be sliced and converted
        if rank(x) == 0:
            return x
        if rank(x) == 1:
            return getitem(x, ZERO)
        if self.stringish(x):
            I.may_raise("ValueError", lst(app("float", x)))
            return app("float", x)
        return x

    def stringish(self, x):
        if self.is_str(x):
            return True
        if x.op == "getitem":
            b = x.args[0]
            if b.op == "app" and (str(b.args[0]).startswith("str.") or b.args[0] in ("lines", "keys", "values")):
                return True
            return self.stringish(b)
        if x.op == "app" and str(x.args[0]).startswith("str."):
            return True
        return kindof(x) == "str"

    def b_int(self, I, pos, kw, node):
        x = self.V(I, pos[0]) if pos else ZERO
        if is_str(x):
            try:
                return num(int(cval(x)))
            except ValueError:
                I.raise_("ValueError")
        if is_num(x):
            return num(int(cval(x)))
        if isinstance(x.args[0] if x.args else None, bool):
            return num(int(x.args[0]))
        if kindof(x) in ("int", "posint") or x.op == "idx" or (x.op == "app" and x.args[0] in ("len", "int", "toint")):
            return x
        if self.stringish(x):
            I.may_raise("ValueError", lst(app("int", x)))
            return app("int", x)
        return app("toint", x)

    def b_complex(self, I, pos, kw, node):
        if len(pos) == 2:
            return add(self.V(I, pos[0]), mul(self.V(I, pos[1]), IMAG))
        v = pos[0]
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__complex__")
                if m:
                    return I.call_func(m[1], [v], {})
        if v.op == "ite" and I.hasobj(v):
            return I.branch(v.args[0], lambda: self.b_complex(I, [v.args[1]], kw, node), lambda: self.b_complex(I, [v.args[2]], kw, node))
        x = self.V(I, v)
        if rank(x) == 1:
            return getitem(x, ZERO)
        return x

    def b_bool(self, I, pos, kw, node):
        return I.truth(pos[0]) if pos else FALSE

    def b_str(self, I, pos, kw, node):
        x = pos[0] if pos else const("")
        return self.text_of(I, x)

    def text_of(self, I, x, conv="s"):
        """what str() (or repr()) of a value says"""
        if x.op == "obj":
            cls = I.objcls[x.args[0]]
            if isinstance(cls, Class):
                for name in ("__str__", "__repr__") if conv == "s" else ("__repr__",):
                    m, owner = cls.find(name)
                    if m and not owner.module.name.startswith("refnx"):
                        return I.call_func(m[1], [x], {})
                if any(c.name == "Parameters" for c in cls.mro()):
                    return app("partext", I.freeze(I.iter_term(x)))
            return app("str", app("objname"))
        if x.op == "ite" and I.hasobj(x):
            return I.branch(x.args[0], lambda: self.text_of(I, x.args[1], conv), lambda: self.text_of(I, x.args[2], conv))
        x = I.freeze(x)
        if is_str(x) or self.is_str(x) and kindof(x) == "str" or conv == "s" and x.op == "app" and x.args[0] in ("strcat", "str", "fmt"):
            return x if conv == "s" else (const(repr(cval(x))) if is_str(x) else app("fmt", x, const("114")))
        if as_int(x) is not None:
            return const(str(as_int(x)))
        if x.op == "const" and cval(x) in (None, True, False):
            return const(str(cval(x)))
        return app("str", x)

    def b_repr(self, I, pos, kw, node):
        return self.text_of(I, pos[0], "r")

    def format_parts(self, I, text, pos, kw):
        """"...".format(...) with plain fields; None when a field is not plain"""
        import string

        out, n = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, name, spec, conv in fields:
            if lit:
                out.append(const(lit))
            if name is None:
                continue
            if name == "":
                name, n = str(n), n + 1
            if name.isdigit():
                if int(name) >= len(pos):
                    return None
                v = pos[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return None
            if spec:
                w = I.freeze(v) if v.op != "obj" else None
                if w is not None and is_str(w):
                    try:
                        out.append(const(format(cval(w), spec)))
                        continue
                    except ValueError:
                        return None
                return None
            if conv not in (None, "s", "r"):
                return None
            out.append(self.text_of(I, v, conv or "s"))
        return self.strcat(out)

    def b_format(self, I, pos, kw, node):
        return app("fmt", *[I.freeze(p) for p in pos])

    def b_round(self, I, pos, kw, node):
        return self.np_round(I, pos, kw, node)

    def b_range(self, I, pos, kw, node):
        a = [self.V(I, p) for p in pos]
        if len(a) == 1:
            return mk("range", ZERO, a[0], ONE)
        return mk("range", a[0], a[1], a[2] if len(a) > 2 else ONE)

    def seqarg(self, I, v):
        return I.iter_term(v)

    def b_enumerate(self, I, pos, kw, node):
        s = kw.get("start", pos[1] if len(pos) > 1 else ZERO)
        f = self.file_iter(I, pos[0]) if pos[0].op == "obj" else None
        return mk("enumerate", f if f is not None else self.seqarg(I, pos[0]), s)

    def b_zip(self, I, pos, kw, node):
        ps = [p.args[0] if p.op == "star" else p for p in pos]
        if any(p.op == "star" for p in pos):
            return app("unzip", *[I.freeze(p) for p in ps])
        if any(I.isref(p) and I.kind(p) == "iter" and ps.count(p) > 1 for p in ps):
            return top("zip of an iterator with itself")
        return mk("zip", *[self.seqarg(I, p) for p in ps])

    def b_reversed(self, I, pos, kw, node):
        s = self.seqarg(I, pos[0])
        if s.op == "list":
            return lst(*reversed(s.args))
        if s.op == "range" or s.op in ("zip", "enumerate"):
            return mk("reversed", s)
        return getitem(s, norm.REV)

    def b_sorted(self, I, pos, kw, node):
        s = self.seqarg(I, pos[0])
        if s.op == "list" and all(is_num(x) for x in s.args) and not kw:
            return I.alloc(lst(*sorted(s.args, key=cval)), "list")
        return I.alloc(self.sorting(I, s, kw), "list")

    def sorting(self, I, s, kw):
        key, rev = kw.get("key"), kw.get("reverse")
        rev = () if rev is None or rev is FALSE else (("reverse", I.freeze(rev)),)
        s = self.materialise(I, s)
        if key is None or key is NONE:
            f = I.freeze(s)
            if f.op == "app" and f.args[0] == "set" and not rev and rank(f.args[1][0]) == 1:
                return app("unique", f.args[1][0])
            return mk("app", "sorted", (f,), rev)
        r = mk("app", "sortby", (I.freeze(s), I.freeze(self.hof(I, [key, s], False))), rev)
        if r.args[1][0].op == "list" and len(r.args[1][0].args) < 2:
            return r.args[1][0]
        return r

    def materialise(self, I, s):
        if s.op in ("range", "zip", "enumerate", "reversed", "items"):
            n, f = I.elems(s)
            if n is None:
                return lst(*f)
            ix = mk("idx", I.uid(), 0)
            norm.IDXDOM[ix.id] = n
            return mkmap(ix, n, f(ix))
        return s

    def b_list(self, I, pos, kw, node):
        if not pos:
            return I.alloc(lst(), "list")
        return I.alloc(self.rows_of(I, pos[0]) or self.materialise(I, self.seqarg(I, pos[0])), "list")

    def rows_of(self, I, v):
        """the rows of a two-dimensional array are views of it"""
        if v.op == "ref" and I.kind(v) == "array" and rank(I.d(v)) == 2:
            n, f = I.elems(v)
            if n is None:
                return lst(*f)
        return None

    def np_copyto(self, I, pos, kw, node):
        if "where" in kw:
            raise Unsupported("copyto where")
        I.store(pos[0], FULL, pos[1])
        return NONE

    def np_put(self, I, pos, kw, node):
        I.store(pos[0], self.V(I, pos[1]), pos[2])
        return NONE

    def b_tuple(self, I, pos, kw, node):
        if not pos:
            return lst()
        r = self.rows_of(I, pos[0])
        if r is not None:
            return r
        return self.materialise(I, self.seqarg(I, pos[0]))

    def b_set(self, I, pos, kw, node):
        if not pos:
            return app("set", lst())
        return app("set", I.freeze(self.seqarg(I, pos[0])))

    b_frozenset = b_set

    def pairs(self, I, o):
        """the dictionary of a dictionary or of an iterable of pairs"""
        x = I.iter_term(o) if o.op == "ref" and I.kind(o) == "iter" else I.d(o)
        items = mk("dict")
        if x.op == "list":
            for p in x.args:
                p = I.d(p)
                items = setitem(items, getitem(p, ZERO), getitem(p, ONE))
            return items
        if x.op in ("zip", "enumerate", "items"):
            n, f = I.elems(x)
            if n is None:
                for p in f:
                    items = setitem(items, p.args[0], p.args[1])
                return items
            return app("?dictzip", I.freeze(x))
        if x.op == "map":
            i, n, body, g = x.args
            if body.op == "list" and len(body.args) != 2:
                return app("?dictof", I.freeze(x))
            return mk("dictmap", i, n, getitem(body, ZERO), getitem(body, ONE), g)
        if I.kind(o) == "dict" or x.op in ("dict", "dictmap", "dictmerge", "setitem", "ite", "sym", "getitem", "mu", "loopval") or kindof(x) == "dict":
            return x
        return app("?dictof", I.freeze(x))

    def b_dict(self, I, pos, kw, node):
        items = mk("dict")
        if pos:
            items = self.pairs(I, pos[0])
        for k, v in kw.items():
            if k is None:
                items = mk("dictmerge", items, I.d(v)) if items.args or items.op != "dict" else I.d(v)
            else:
                items = setitem(items, const(k), v)
        return I.alloc(items, "dict")

    def b_iter(self, I, pos, kw, node):
        v = pos[0]
        if is_num(v) or kindof(v) in ("param", "real", "posreal", "int") or v is NONE:
            I.raise_("TypeError")
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            if isinstance(cls, Class) and cls.find("__iter__")[0] is None and cls.find("__getitem__")[0] is None \
                    and I.st.h.get(("a", v.args[0], "data")) is None:
                I.raise_("TypeError")
        return self.seqarg(I, v)

    def b_next(self, I, pos, kw, node):
        if pos[0].op == "ref" and I.kind(pos[0]) == "iter":
            s = I.d(pos[0])
            if s.op not in ("list", "map", "concat", "range", "zip", "enumerate", "lines", "linesfrom") and rank(s) != 1:
                I.put(pos[0], top("rest of an iterator"))
            elif s.op == "list":
                I.put(pos[0], lst(*s.args[1:]))
            elif s.op in ("range", "zip", "enumerate", "reversed", "items"):
                I.put(pos[0], top("rest of an iterator"))
            else:
                I.put(pos[0], getitem(s, mk("slice", ONE, NONE, NONE)))
        else:
            s = I.iter_term(pos[0])
        if len(pos) > 1:
            if s.op == "list":
                return s.args[0] if s.args else pos[1]
            return ite(mk("eq", arr_len(s), ZERO), pos[1], getitem(s, ZERO))
        return getitem(s, ZERO)

    def b_map(self, I, pos, kw, node):
        return self.hof(I, pos, False)

    def b_filter(self, I, pos, kw, node):
        return self.hof(I, pos, True)

    def hof(self, I, pos, filt):
        cell = I.alloc(lst(), "list")
        fr = I.fr
        f2 = Frame(I.uid(), fr.func, fr.module, fr, fr.depth)
        I.frames[f2.fid] = f2
        t = ast.Name("__it", ast.Store())
        if len(pos) > 2:
            src = mk("zip", *[self.seqarg(I, p) for p in pos[1:]])
        else:
            src = pos[1]

        def body():
            v = I.st.h[("v", f2.fid, "__it")]
            args = [v] if len(pos) <= 2 else list(v.args)
            if filt:
                c = I.truth(v if pos[0] is NONE else I.call(pos[0], args, {}))
                I.branch(c, lambda: I.put(cell, concat(I.d(cell), lst(v))), lambda: None)
            else:
                r = I.box(I.call(pos[0], args, {}))
                I.put(cell, concat(I.d(cell), lst(r)))
        I.for_loop(t, src, body, f2)
        return I.d(cell)

    def b_sum(self, I, pos, kw, node):
        s = I.iter_term(pos[0])
        st = self.V(I, pos[1]) if len(pos) > 1 else ZERO
        s = self.numval(I, self.deep(I, s)) if s.op in ("list", "map", "concat") else self.V(I, s)
        if s.op == "list":
            r = st
            for x in s.args:
                r = self.arith(I, "add", r, x)
            return r
        return add(st, self.reduce(I, "sum", s))

    def quant(self, I, v, fn):
        if v.op == "ref" and I.kind(v) == "array":
            return self.reduce(I, fn, I.d(v))
        s = I.iter_term(v)
        if s.op == "list":
            ts = [I.truth(x) for x in s.args]
            return or_(*ts) if fn == "any" else and_(*ts)
        if s.op == "map":
            e = I.truth(s.args[2])
            g = s.args[3]
            if fn == "any":
                return mk("exists", s.args[0], s.args[1], and_(g, e))
            return not_(mk("exists", s.args[0], s.args[1], and_(g, not_(e))))
        if s.op == "concat":
            ts = [self.quant(I, x, fn) for x in s.args]
            return or_(*ts) if fn == "any" else and_(*ts)
        return self.reduce(I, fn, s)

    def b_any(self, I, pos, kw, node):
        return self.quant(I, pos[0], "any")

    def b_all(self, I, pos, kw, node):
        return self.quant(I, pos[0], "all")

    def minmax(self, I, pos, fn):
        if len(pos) == 1:
            s = I.iter_term(pos[0])
            s = self.numval(I, s)
            if s.op == "list" and s.args and rank(s) == 1:
                r = s.args[0]
                for x in s.args[1:]:
                    r = self.elem(I, "minimum" if fn == "min" else "maximum", r, x)
                return r
            return app(fn, s)
        r = self.V(I, pos[0])
        for p in pos[1:]:
            r = self.elem(I, "minimum" if fn == "min" else "maximum", r, self.V(I, p))
        return r

    def b_min(self, I, pos, kw, node):
        return self.minmax(I, pos, "min")

    def b_max(self, I, pos, kw, node):
        return self.minmax(I, pos, "max")

    def b_print(self, I, pos, kw, node):
        return NONE

    def b_hash(self, I, pos, kw, node):
        x = I.freeze(pos[0])
        if x.op in ("obj", "ref"):
            I.unknown.add("hash")
            return mk("app", "?.hash", (x,), ())
        return app("hash", x)

    def b_id(self, I, pos, kw, node):
        v = pos[0]
        if v.op == "ite":
            return ite(v.args[0], self.b_id(I, [v.args[1]], kw, node), self.b_id(I, [v.args[2]], kw, node))
        if v.op in ("ref", "obj"):
            return app("id", const(f"{v.op}{v.args[0]}"))
        if v.op in ("sym", "cls", "ext", "func", "getitem"):
            return app("id", v)
        raise Unsupported("id of a value")

    def b_callable(self, I, pos, kw, node):
        v = pos[0]
        if v.op in ("func", "bound", "cls", "ext", "native", "partial"):
            return TRUE
        if v is NONE or is_num(v):
            return FALSE
        if kindof(v) == "callable":
            return TRUE
        return app("callable", I.freeze(v))

    def b_type(self, I, pos, kw, node):
        v = pos[0]
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            if isinstance(cls, Class):
                return mk("cls", f"{cls.module.name}.{cls.name}")
        if v.op == "ite":
            return ite(v.args[0], self.b_type(I, [v.args[1]], kw, node), self.b_type(I, [v.args[2]], kw, node))
        k = I.kind(v) if v.op == "ref" else kindof(v)
        t = {"list": "builtins.list", "dict": "builtins.dict", "array": "numpy.ndarray", "str": "builtins.str",
             "real": "builtins.float", "posreal": "builtins.float", "int": "builtins.int", "posint": "builtins.int",
             "path": "pathlib.PosixPath", "arr": "numpy.ndarray", "df": "pandas.DataFrame", "cplx": "builtins.complex"}.get(k)
        if self.is_str(v):
            t = "builtins.str"
        if v is NONE:
            t = "builtins.NoneType"
        if is_num(v):
            t = "builtins.int" if cval(v).denominator == 1 else "builtins.float"
        if v.op == "list":
            t = "builtins.tuple"
        if t:
            return mk("ext", t)
        return app("type", I.freeze(v))

    def b_isinstance(self, I, pos, kw, node):
        return self.isinst(I, pos[0], pos[1])

    def isinst(self, I, v, c):
        c = I.d(c) if I.isref(c) else c
        if c.op == "list":
            return or_(*[self.isinst(I, v, x) for x in c.args])
        if v.op == "ite":
            return ite(v.args[0], self.isinst(I, v.args[1], c), self.isinst(I, v.args[2], c))
        if v.op == "getitem":
            v = elem_record(v) or v
        if v.op == "record":
            cn = v.args[0]
            if c.op == "cls" and cn in I.classes:
                return const(any(x is I.classes[c.args[0]] for x in I.classes[cn].mro()))
            return FALSE
        if c.op == "cls":
            target = I.classes[c.args[0]]
            if v.op == "obj":
                cls = I.objcls[v.args[0]]
                if isinstance(cls, Class):
                    return const(any(x is target for x in cls.mro()))
                return FALSE
            k = kindof(v)
            if k == "param":
                return const(target.name in ("BaseParameter", "Parameter"))
            if k == "params":
                return const(target.name in ("Parameters",))
            if v.op == "getitem" and self.is_paramseq(v.args[0]):
                return const(target.name in ("BaseParameter", "Parameter"))
            if k in ("model", "object", "user", "any"):
                return mk("isinstance", v, target.name)
            if v.op in ("ref", "const", "list", "func") or k is not None or rank(v) is not None:
                return FALSE
            return mk("isinstance", I.freeze(v), target.name)
        n = c.args[0] if c.op == "ext" else show(c)
        n = n.split(".")[-1]
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            if isinstance(cls, Class):
                return const(any(str(b).split(".")[-1] == n for b in cls.ext_bases()) or n == "object")
            return FALSE
        k = I.kind(v) if v.op == "ref" else kindof(v)
        tab = {"list": {"list", "Sequence", "Iterable", "MutableSequence"}, "dict": {"dict", "Mapping"}, "array": {"ndarray", "Iterable"},
               "df": {"DataFrame"}, "str": {"str", "Sequence"}, "path": {"PurePath", "Path", "PathLike", "PosixPath"},
               "real": {"float", "Number", "Real", "floating"}, "posreal": {"float", "Number", "Real", "floating"},
               "int": {"int", "Integral", "Number", "integer", "Real"}, "posint": {"int", "Integral", "Number", "integer", "Real"},
               "cplx": {"complex", "Number", "Complex"}, "bool": {"bool", "int"}}
        if k in tab:
            return const(n in tab[k])
        if k is not None and k in norm.KIND_RANK and norm.KIND_RANK[k] >= 1:
            return const(n in ("ndarray", "Iterable"))
        if is_str(v) or self.is_str(v):
            return const(n in ("str", "Sequence"))
        if v is NONE:
            return const(n == "NoneType")
        if v is TRUE or v is FALSE:
            return const(n in ("bool", "int"))
        if is_num(v):
            return const(n in ("float", "Number", "Real") or (cval(v).denominator == 1 and n in ("int", "Integral")))
        if v.op == "list":
            return const(n in ("tuple", "Sequence", "Iterable"))
        if v.op in ("func", "bound", "cls", "ext", "mod"):
            return FALSE
        if rank(v) == 0:
            return const(n in ("float", "Number", "floating", "Real"))
        if rank(v) is not None:
            return const(n in ("ndarray", "Iterable"))
        if k in ("param", "params", "model", "user", "handle", "callable"):
            return FALSE
        return mk("isinstance", I.freeze(v), n)

    def b_issubclass(self, I, pos, kw, node):
        if pos[0].op == "cls" and pos[1].op == "cls":
            return const(any(x is I.classes[pos[1].args[0]] for x in I.classes[pos[0].args[0]].mro()))
        return app("issubclass", I.freeze(pos[0]), I.freeze(pos[1]))

    def b_hasattr(self, I, pos, kw, node):
        return I.hasattr_(pos[0], cval(pos[1])) if is_str(pos[1]) else top("hasattr")

    def b_getattr(self, I, pos, kw, node):
        if not is_str(pos[1]):
            return top("dynamic attribute")
        n = cval(pos[1])
        if len(pos) > 2:
            o = pos[0]
            if o.op == "obj":
                h = I.hasattr_(o, n)
                if h is FALSE:
                    return pos[2]
                return I.getattr_(o, n, I.fr)
            if o.op == "ite":
                return I.branch(o.args[0], lambda: self.b_getattr(I, [o.args[1]] + pos[1:], kw, node),
                                lambda: self.b_getattr(I, [o.args[2]] + pos[1:], kw, node))
            if o is NONE or is_num(o) or o.op in ("ref",):
                h = self.static_hasattr(I, o, n)
                if h is FALSE:
                    return pos[2]
            return I.getattr_(o, n, I.fr, pos[2])
        return I.getattr_(pos[0], n, I.fr)

    def b_setattr(self, I, pos, kw, node):
        if not is_str(pos[1]):
            raise Unsupported("dynamic setattr")
        I.setattr_(pos[0], cval(pos[1]), pos[2])
        return NONE

    def b_vars(self, I, pos, kw, node):
        return I.getattr_(pos[0], "__dict__", I.fr)

    def b_slice(self, I, pos, kw, node):
        a = [self.V(I, p) for p in pos]
        if len(a) == 1:
            return mk("slice", NONE, a[0], NONE)
        return mk("slice", a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_divmod(self, I, pos, kw, node):
        x, y = self.V(I, pos[0]), self.V(I, pos[1])
        return lst(self.elem(I, "floordiv", x, y), self.elem(I, "mod", x, y))

    def b_open(self, I, pos, kw, node):
        return self.mkfile(I, pos[0])

    def mkfile(self, I, src):
        o = I.newobj("file")
        s = I.d(src) if I.isref(src) else src
        I.st.h[("a", o.args[0], "src")] = s
        I.st.h[("a", o.args[0], "pos")] = ZERO
        return o

    def b_object(self, I, pos, kw, node):
        return app("object")

    # ---------------------------------------------------------------- intrinsics of the specification language
    def x_vspec_ANY(self, I, pos, kw, node):
        return self.fresh(I, cval(pos[0]), cval(pos[1]))

    def fresh(self, I, name, kind):
        if kind == "file":
            o = I.newobj("file")
            I.st.h[("a", o.args[0], "src")] = sym(name, "handle")
            I.st.h[("a", o.args[0], "pos")] = ZERO
            return o
        if kind in ("file_pos",):
            o = I.newobj("file")
            I.st.h[("a", o.args[0], "src")] = sym(name, "handle")
            I.st.h[("a", o.args[0], "pos")] = sym(name + "@pos", "posint")
            return o
        t = sym(name, kind)
        if norm.KIND_RANK.get(kind, 0) >= 1:
            return I.alloc(t, "array")
        if kind == "dict":
            return I.alloc(t, "dict")
        if kind == "list":
            return I.alloc(t, "list")
        if kind == "df":
            return I.alloc(t, "df")
        return t

    def x_vspec_UF(self, I, pos, kw, node):
        nm, kind = cval(pos[0]), cval(pos[1])
        t = mk("app", f"u:{nm}:{kind}", tuple(I.freeze(p) for p in pos[2:]), ())
        if norm.KIND_RANK.get(kind, 0) >= 1:
            return I.alloc(t, "array")
        return t

    def x_vspec_MAYFAIL(self, I, pos, kw, node):
        """an unknown user callback: may raise anything"""
        I.raise_("UserError", mk("exc", "UserError", tuple(I.freeze(p) for p in pos)))
        return NONE

    def x_vspec_STATE(self, I, pos, kw, node):
        """current contents of one attribute map of the symbolic parameters"""
        n = cval(pos[0])
        return I.st.h.get(("F", n)) or sym("F." + n, "map")

    def x_vspec_FREEZE(self, I, pos, kw, node):
        return I.freeze(pos[0])

    def x_vspec_LOG(self, I, pos, kw, node):
        return I.st.h.get(("e", "log")) or lst()

    def x_vspec_SAME(self, I, pos, kw, node):
        """do two values share storage?"""
        return self.shares(I, pos[0], pos[1])

    def roots(self, I, v):
        if v.op == "ref":
            c = v.args[0]
            while c in I.views:
                c = I.views[c][0].args[0]
            return {c}
        if v.op == "ite":
            return self.roots(I, v.args[1]) | self.roots(I, v.args[2])
        if v.op == "obj":
            return {("o", v.args[0])}
        return set()

    def shares(self, I, a, b):
        return const(bool(self.roots(I, a) & self.roots(I, b)))

    def x_vspec_ATTRS(self, I, pos, kw, node):
        """names of the instance attributes of an object"""
        o = pos[0]
        return lst(*[const(k) for k in sorted(k[2] for k in I.st.h if k[0] == "a" and k[1] == o.args[0])])

    # ---------------------------------------------------------------- native helpers used by the models
    def x_vspec_flatten(self, I, pos, kw, node):
        return self.flat(I, pos[0])

    def flat(self, I, v):
        if v.op == "obj":
            return self.flat_seq(I, I.iter_term(v))
        return self.flat_seq(I, I.iter_term(v))

    def flat_seq(self, I, s):
        if s.op == "list":
            out = lst()
            for x in s.args:
                out = concat(out, self.flat_el(I, x))
            return out
        if s.op == "concat":
            return concat(*[self.flat_seq(I, x) for x in s.args])
        if s.op == "map":
            e = s.args[2]
            fe = self.flat_el(I, e)
            if fe.op == "list" and len(fe.args) == 1:
                return s
            return mk("flat", s.args[0], s.args[1], fe)
        if s.op == "ite":
            return ite(s.args[0], self.flat_seq(I, s.args[1]), self.flat_seq(I, s.args[2]))
        return s

    def flat_el(self, I, x):
        if x.op == "obj":
            cls = I.objcls[x.args[0]]
            if isinstance(cls, Class) and (cls.find("__iter__")[0] or I.st.h.get(("a", x.args[0], "data")) is not None):
                return self.flat(I, x)
            return lst(x)
        if x.op == "ref":
            return self.flat_seq(I, I.iter_term(x))
        if x.op == "list" or x.op == "concat":
            return self.flat_seq(I, x)
        if kindof(x) == "params" or kindof(x) in ("list", "strlist"):
            return x
        if kindof(x) is not None and norm.KIND_RANK.get(kindof(x), 0) >= 1:
            return x
        if x.op == "app" and self.is_paramseq(x):
            return x
        if x.op == "ite":
            return ite(x.args[0], self.flat_el(I, x.args[1]), self.flat_el(I, x.args[2]))
        return lst(x)

    def x_vspec_uniq(self, I, pos, kw, node):
        s = I.iter_term(pos[0])
        if s.op == "list" and all(x.op == "obj" for x in s.args):
            out = []
            for x in s.args:
                if x not in out:
                    out.append(x)
            return lst(*out)
        if s.op == "list" and len(s.args) <= 1:
            return s
        return app("uniq", s)

    def x_vspec_isparam(self, I, pos, kw, node):
        v = pos[0]
        if v.op == "ite":
            return ite(v.args[0], self.x_vspec_isparam(I, [v.args[1]], kw, node), self.x_vspec_isparam(I, [v.args[2]], kw, node))
        if kindof(v) == "param" or (v.op == "getitem" and self.is_paramseq(v.args[0])):
            return TRUE
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            return const(isinstance(cls, Class) and any(c.name == "BaseParameter" for c in cls.mro()))
        if kindof(v) == "any":
            return app("is_parameter", v)
        return FALSE

    def x_vspec_isparams(self, I, pos, kw, node):
        v = pos[0]
        if kindof(v) == "params":
            return TRUE
        if v.op == "obj":
            cls = I.objcls[v.args[0]]
            return const(isinstance(cls, Class) and any(c.name == "Parameters" for c in cls.mro()))
        return FALSE

    def x_vspec_openfile(self, I, pos, kw, node):
        return self.mkfile(I, pos[0])

    def x_vspec_isfile(self, I, pos, kw, node):
        v = pos[0]
        return const(v.op == "obj" and I.objcls[v.args[0]] == "file")

    def x_vspec_vals(self, I, pos, kw, node):
        s = self.flat(I, pos[0])
        if s.op == "list":
            return I.alloc(lst(*[self.V(I, x) for x in s.args]), "array")
        if s.op == "concat":
            return I.alloc(concat(*[self.vals_of(I, x) for x in s.args]), "array")
        return I.alloc(self.vals_of(I, s), "array")

    # ---------------------------------------------------------------- numpy
    def np_array(self, I, pos, kw, node):
        cp = kw.get("copy", TRUE)
        dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        r = self.asarray(I, pos[0], cp is not FALSE)
        return self.cast(I, r, dt)

    def np_asarray(self, I, pos, kw, node):
        dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        return self.cast(I, self.asarray(I, pos[0], False), dt)

    np_asfarray = np_asanyarray = np_ascontiguousarray = np_asarray

    def np_copy(self, I, pos, kw, node):
        return self.asarray(I, pos[0], True)

    def cast(self, I, r, dt):
        if dt is None or dt is NONE:
            return r
        n = dt.args[0] if dt.op == "ext" else (cval(dt) if is_str(dt) else None)
        if n in FLOATY or n in ("float", "float64", "complex", "f8", "d", "<f8"):
            x = self.V(I, r)
            if needs_cast(x):
                y = app("tofloat", x)
                return I.alloc(y, "array") if rank(x) else y
            return r
        if dt.op == "app" and dt.args[0] == "dtype":
            return r
        x = self.V(I, r)
        if n in ("builtins.bool", "numpy.bool_", "bool"):
            y = boolarr(x)
            return I.alloc(y, "array") if rank(x) else y
        if n is not None and "int" in str(n):
            y = self.elem(I, "toint", x)
        elif n is not None and ("float16" in str(n) or "half" in str(n)):
            y = self.elem(I, "float16", x)
        elif n is not None and "32" in str(n):
            y = self.elem(I, "float32", x)
        else:
            y = app("astype", x, I.freeze(dt))
        return I.alloc(y, "array") if rank(x) else y

    def np_astype(self, I, pos, kw, node):
        dt = pos[1] if len(pos) > 1 else kw.get("dtype")
        return self.cast(I, self.asarray(I, pos[0], True), dt)

    def np_float64(self, I, pos, kw, node):
        return self.b_float(I, pos, kw, node)

    def np_float32(self, I, pos, kw, node):
        return self.elem(I, "float32", self.V(I, pos[0]))

    def np_complex128(self, I, pos, kw, node):
        return self.b_complex(I, pos, kw, node)

    def np_int64(self, I, pos, kw, node):
        return self.b_int(I, pos, kw, node)

    def np_real(self, I, pos, kw, node):
        return self.elem(I, "real", self.V(I, pos[0]))

    def np_imag(self, I, pos, kw, node):
        return self.elem(I, "imag", self.V(I, pos[0]))

    def np_conj(self, I, pos, kw, node):
        return self.elem(I, "conj", self.V(I, pos[0]))

    np_conjugate = np_conj

    def np_angle(self, I, pos, kw, node):
        r = self.elem(I, "angle", self.V(I, pos[0]))
        deg = kw.get("deg", pos[1] if len(pos) > 1 else FALSE)
        if deg is TRUE:
            return self.arith(I, "mul", r, div(num(180), PI))
        return r

    def x_cmath_phase(self, I, pos, kw, node):
        return self.elem(I, "angle", self.V(I, pos[0]))

    def np_arctan2(self, I, pos, kw, node):
        return self.elem(I, "arctan2", self.V(I, pos[0]), self.V(I, pos[1]))

    x_math_atan2 = np_arctan2

    def np_hypot(self, I, pos, kw, node):
        return self.elem(I, "hypot", self.V(I, pos[0]), self.V(I, pos[1]))

    def np_square(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        return self.out(I, kw, self.arith(I, "mul", x, x))

    def np_negative(self, I, pos, kw, node):
        return self.out(I, dict(kw, out=pos[1]) if len(pos) > 1 else kw, self.arith(I, "neg", self.V(I, pos[0])))

    def np_reciprocal(self, I, pos, kw, node):
        return self.arith(I, "div", ONE, self.V(I, pos[0]))

    def np_minimum(self, I, pos, kw, node):
        return self.out(I, kw, self.elem(I, "minimum", self.V(I, pos[0]), self.V(I, pos[1])))

    def np_maximum(self, I, pos, kw, node):
        return self.out(I, kw, self.elem(I, "maximum", self.V(I, pos[0]), self.V(I, pos[1])))

    np_fmin, np_fmax = np_minimum, np_maximum

    def np_heaviside(self, I, pos, kw, node):
        return self.elem(I, "heaviside", self.V(I, pos[0]), self.V(I, pos[1]))

    def np_clip(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        lo = kw.get("a_min", kw.get("min", kw.get("lower", pos[1] if len(pos) > 1 else NONE)))
        hi = kw.get("a_max", kw.get("max", kw.get("upper", pos[2] if len(pos) > 2 else NONE)))
        lo, hi = self.V(I, lo), self.V(I, hi)
        r = x
        if lo is not NONE and fval(lo) != float("-inf"):
            r = self.elem(I, "maximum", r, lo)
        if hi is not NONE and fval(hi) != float("inf"):
            r = self.elem(I, "minimum", r, hi)
        k = dict(kw.items())
        if len(pos) > 3:
            k["out"] = pos[3]
        return self.out(I, k, r)

    def np_where(self, I, pos, kw, node):
        c = self.V(I, pos[0])
        if len(pos) == 1:
            return lst(app("nonzero", c))
        c = boolarr(c) if rank(c) != 0 or not is_boolish(c) else c
        a, b = self.V(I, pos[1]), self.V(I, pos[2])
        if rank(c) == 0:
            return ite(I.truth(c), a, b)
        return where(c, a, b)

    def np_nonzero(self, I, pos, kw, node):
        return lst(app("nonzero", self.V(I, pos[0])))

    def np_flatnonzero(self, I, pos, kw, node):
        return app("nonzero", self.V(I, pos[0]))

    def np_logical_not(self, I, pos, kw, node):
        return not_(self.V(I, pos[0]))

    def np_logical_and(self, I, pos, kw, node):
        return and_(self.V(I, pos[0]), self.V(I, pos[1]))

    def np_logical_or(self, I, pos, kw, node):
        return or_(self.V(I, pos[0]), self.V(I, pos[1]))

    np_invert, np_bitwise_not, np_bitwise_and, np_bitwise_or = np_logical_not, np_logical_not, np_logical_and, np_logical_or

    def np_any(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
        return self.reduce(I, "any", x, ax)

    def np_all(self, I, pos, kw, node):
        ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
        return self.reduce(I, "all", self.V(I, pos[0]), ax)

    def np_sum(self, I, pos, kw, node):
        if kw.get("keepdims", FALSE) is not FALSE or kw.get("where", NONE) is not NONE or kw.get("initial", NONE) is not NONE:
            return top("options of numpy.sum")
        x = self.V(I, pos[0])
        if pos[0].op != "ref" or I.kind(pos[0]) == "list":
            x = self.numval(I, self.deep(I, I.iter_term(pos[0]) if rank(x) is None else x))
        ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
        return self.reduce(I, "sum", x, self.V(I, ax) if ax is not None else None)

    def np_nansum(self, I, pos, kw, node):
        return self.np_sum(I, [self.nan0(I, self.V(I, pos[0]), ZERO)] + list(pos[1:]), kw, node)

    def nan0(self, I, x, v):
        if not rank(x):
            return ite(app("isnan", x), v, x)
        return where(self.elem(I, "isnan", x), v, x)

    def np_nan_to_num(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        c = kw.get("copy")
        if c is not None and c is not TRUE:
            raise Unsupported("nan_to_num in place")
        nan, pinf, ninf = (self.V(I, kw[k]) if k in kw and kw[k] is not NONE else d
                           for k, d in (("nan", ZERO), ("posinf", num(1.7976931348623157e308)), ("neginf", num(-1.7976931348623157e308))))
        for test, v in (("isneginf", ninf), ("isposinf", pinf), ("isnan", nan)):
            t = self.infsign(I, x, test) if test != "isnan" else self.elem(I, test, x)
            x = where(t, v, x) if rank(x) else ite(t, v, x)
        return I.alloc(x, "array") if rank(x) else x

    def infsign(self, I, x, test):
        return self.V(I, self.compare(I, "Eq", x, INF if test == "isposinf" else neg(INF)))

    def np_isneginf(self, I, pos, kw, node):
        return self.infsign(I, self.V(I, pos[0]), "isneginf")

    def np_isposinf(self, I, pos, kw, node):
        return self.infsign(I, self.V(I, pos[0]), "isposinf")

    def _red(fn):
        def f(self, I, pos, kw, node):
            if kw.get("keepdims", FALSE) is not FALSE:
                return top("keepdims")
            x = self.V(I, pos[0])
            ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
            return self.reduce(I, fn, x, self.V(I, ax) if ax is not None else None)
        return f

    np_mean, np_median, np_std, np_var = _red("mean"), _red("median"), _red("std"), _red("var")
    np_min = np_amin = _red("min")
    np_max = np_amax = _red("max")
    np_prod, np_argmin, np_argmax, np_ptp = _red("prod"), _red("argmin"), _red("argmax"), _red("ptp")

    def np_average(self, I, pos, kw, node):
        w = kw.get("weights", pos[2] if len(pos) > 2 else None)
        if w is None or w is NONE:
            return self.np_mean(I, pos, kw, node)
        x, w = self.V(I, pos[0]), self.V(I, w)
        if rank(x) != 1 or rank(w) != 1:
            return top("weighted average of a matrix")
        return div(self.reduce(I, "sum", self.arith(I, "mul", x, w), None), self.reduce(I, "sum", w, None))

    def np_cumsum(self, I, pos, kw, node):
        return app("cumsum", self.V(I, pos[0]))

    def np_count_nonzero(self, I, pos, kw, node):
        return app("count", boolarr(self.V(I, pos[0])))

    def np_dot(self, I, pos, kw, node):
        return self.dot(I, self.V(I, pos[0]), self.V(I, pos[1]))

    np_inner = np_dot

    def np_matmul(self, I, pos, kw, node):
        return self.matmul(I, self.V(I, pos[0]), self.V(I, pos[1]))

    def matmul(self, I, x, y):
        if max(rank(x) or 0, rank(y) or 0) > 2:
            return app("?matmul", I.freeze(x), I.freeze(y))
        return self.dot(I, x, y)

    def np_vdot(self, I, pos, kw, node):
        return self.dot(I, self.np_conj(I, pos[:1], {}, node), self.V(I, pos[1]))

    def np_outer(self, I, pos, kw, node):
        a, b = self.V(I, pos[0]), self.V(I, pos[1])
        return self.arith(I, "mul", getitem(a, mk("idxt", FULL, NONE)), b)

    def np_isscalar(self, I, pos, kw, node):
        v = pos[0]
        if v.op == "ref":
            return FALSE
        r = rank(v)
        if r is not None:
            return const(r == 0)
        if is_str(v):
            return TRUE
        return app("isscalar", I.freeze(v))

    def np_ndim(self, I, pos, kw, node):
        r = rank(self.V(I, pos[0]))
        return num(r) if r is not None else app("ndim", self.V(I, pos[0]))

    def np_size(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if len(pos) > 1 or "axis" in kw:
            ax = as_int(pos[1] if len(pos) > 1 else kw["axis"])
            if ax == 0:
                return arr_len(x)
            return norm.ncols(x)
        if x is NONE:
            return ONE
        return self.size(x)

    def np_shape(self, I, pos, kw, node):
        return self.shape(self.V(I, pos[0]))

    def np_zeros_like(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        return self.like(I, x, ZERO, "zeros_like", kw)

    def np_ones_like(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        dt = kw.get("dtype")
        one = ONE
        if dt is not None and dt.op == "ext" and dt.args[0] in ("builtins.bool", "numpy.bool_"):
            one = TRUE
        return self.like(I, x, one, "ones_like", kw)

    def np_full_like(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if rank(x) == 0:
            return self.V(I, pos[1])
        return I.alloc(app("full", arr_len(x), self.V(I, pos[1])), "array")

    def np_empty_like(self, I, pos, kw, node):
        return self.np_zeros_like(I, pos, kw, node)

    def intish(self, I, dt):
        n = None if dt is None else dt.args[0] if dt.op == "ext" else (cval(dt) if is_str(dt) else None)
        return n is not None and ("int" in n.split(".")[-1] or n in ("i", "i4", "i8", "u1"))

    def like(self, I, x, c, fn, kw):
        if rank(x) == 0:
            return c
        if self.intish(I, kw.get("dtype")):
            if rank(x) != 1:
                raise Unsupported("integer matrix")
            return I.alloc(app("full_like_dtype", arr_len(x), c, app("intdtype")), "array")
        if x.op == "list" and rank(x) == 1:
            return I.alloc(lst(*[c for _ in x.args]), "array")
        if needs_cast(x) and "dtype" not in kw:
            return I.alloc(app("full_like_dtype", arr_len(x), c, dtype_root(x)), "array") if rank(x) == 1 else I.alloc(app(fn, x), "array")
        if rank(x) == 1:
            return I.alloc(app("full", arr_len(x), c), "array")
        return I.alloc(app(fn if c is not TRUE else "trues_like", x), "array")

    def shaped(self, I, shp, c, fn, dt=None):
        s = I.d(shp) if I.isref(shp) else shp
        s = self.numval(I, s)
        if s.op == "list" and len(s.args) == 1:
            s = s.args[0]
        if self.intish(I, dt):
            if rank(s) != 0:
                raise Unsupported("integer matrix")
            return I.alloc(app("full_like_dtype", s, c, app("intdtype")), "array")
        n = as_int(s)
        if n is not None and n <= 32:
            return I.alloc(lst(*[c] * n), "array")
        if s.op == "list" and all(as_int(x) is not None and as_int(x) <= 16 for x in s.args) and len(s.args) == 2:
            return I.alloc(lst(*[lst(*[c] * as_int(s.args[1])) for _ in range(as_int(s.args[0]))]), "array")
        if rank(s) == 0:
            return I.alloc(app("full", s, c), "array")
        if s.op == "list" and len(s.args) == 2 and as_int(s.args[1]) is not None and as_int(s.args[1]) <= 16:
            return I.alloc(transpose(lst(*[app("full", s.args[0], c) for _ in range(as_int(s.args[1]))])), "array")
        if s.op == "list" and len(s.args) == 2:
            return I.alloc(app("full2", s.args[0], s.args[1], c), "array")
        return I.alloc(app("fullshape", s, c), "array")

    def np_zeros(self, I, pos, kw, node):
        dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        return self.shaped(I, pos[0] if pos else kw["shape"], FALSE if dt is not None and dt.op == "ext" and "bool" in dt.args[0] else ZERO, "zeros", dt)

    def np_ones(self, I, pos, kw, node):
        dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        return self.shaped(I, pos[0] if pos else kw["shape"], TRUE if dt is not None and dt.op == "ext" and "bool" in dt.args[0] else ONE, "ones", dt)

    def np_empty(self, I, pos, kw, node):
        return self.shaped(I, pos[0] if pos else kw["shape"], ZERO, "empty", kw.get("dtype", pos[1] if len(pos) > 1 else None))

    def np_full(self, I, pos, kw, node):
        return self.shaped(I, pos[0], self.V(I, pos[1] if len(pos) > 1 else kw["fill_value"]), "full", kw.get("dtype", pos[2] if len(pos) > 2 else None))

    def np_linspace(self, I, pos, kw, node):
        a = [self.V(I, p) for p in pos]
        if len(a) < 3:
            a.append(self.V(I, kw["num"]) if "num" in kw else num(50))
        dt = kw.get("dtype")
        if dt is not None and dt.op == "ext" and "int" in dt.args[0] and as_int(a[0]) is not None and a[1] is a[2]:
            ix = mk("idx", I.uid(), 0)
            if as_int(a[0]) == 1:
                return I.alloc(mk("map", ix, a[2], add(ix, ONE), TRUE), "array")
        ep = kw.get("endpoint")
        if len(a) == 4:
            ep, a = a[3], a[:3]
        if ep is not None and I.freeze(ep) is not TRUE:
            return I.alloc(mk("app", "linspace", tuple(a), (("endpoint", I.freeze(ep)),)), "array")
        return I.alloc(app("linspace", *a), "array")

    def np_arange(self, I, pos, kw, node):
        a = [self.V(I, p) for p in pos]
        r = mk("range", *((ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)))
        return I.alloc(self.materialise(I, r), "array")

    def np_concatenate(self, I, pos, kw, node):
        seq = I.iter_term(pos[0])
        ax = as_int(kw.get("axis", pos[1] if len(pos) > 1 else ZERO))
        if seq.op == "list":
            xs = [self.V(I, x) for x in seq.args]
            if any(x is NONE for x in xs):
                I.raise_("ValueError")
            for x in xs:
                if x.op == "ite" and (x.args[1] is NONE or x.args[2] is NONE):
                    c = x.args[0] if x.args[1] is NONE else not_(x.args[0])
                    I.raise_("ValueError", c)
            xs = [drop_none(x) for x in xs]
            if ax == 0:
                return I.alloc(concat(*xs), "array")
            return I.alloc(mk("app", "concat_axis", tuple(xs), (("axis", num(ax) if ax is not None else NONE),)), "array")
        x = self.deep(I, seq)
        return I.alloc(flat_rows(x), "array")

    np_vstack_ = None

    def np_vstack(self, I, pos, kw, node):
        seq = I.iter_term(pos[0])
        if seq.op == "list":
            xs = [self.V(I, x) for x in seq.args]
            rows = [lst(x) if rank(x) == 1 else x for x in xs]
            return I.alloc(concat(*rows), "array")
        return I.alloc(flat_rows(self.deep(I, seq)), "array")

    np_row_stack = np_vstack

    def np_stack(self, I, pos, kw, node):
        seq = I.iter_term(pos[0])
        ax = as_int(kw.get("axis", pos[1] if len(pos) > 1 else ZERO))
        xs = [self.V(I, x) for x in seq.args] if seq.op == "list" else None
        if xs is None:
            return I.alloc(self.deep(I, seq), "array")
        if ax == 0:
            return I.alloc(lst(*xs), "array")
        return I.alloc(self.column_stack(I, xs), "array")

    def np_hstack(self, I, pos, kw, node):
        seq = I.iter_term(pos[0])
        return I.alloc(self.stacked(I, seq, self.hstack), "array")

    def hstack(self, I, xs):
        if all(rank(x) in (0, 1) for x in xs):
            return self.hcat(I, xs)
        return mk("app", "concat_axis", tuple(xs), (("axis", ONE),))

    def np_append(self, I, pos, kw, node):
        return I.alloc(self.hcat(I, [self.V(I, pos[0]), self.V(I, pos[1])]), "array")

    def np_column_stack(self, I, pos, kw, node):
        seq = I.iter_term(pos[0])
        return I.alloc(self.stacked(I, seq, self.column_stack), "array")

    def stacked(self, I, seq, f):
        if seq.op == "ite":
            return ite(seq.args[0], self.stacked(I, seq.args[1], f), self.stacked(I, seq.args[2], f))
        if I.isref(seq):
            seq = I.d(seq)
        if seq.op == "list":
            return f(I, [self.V(I, x) for x in seq.args])
        if rank(seq) == 2 and f == self.column_stack:
            return transpose(seq)
        return top("stack")

    def np_atleast_1d(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if rank(x) == 0:
            return I.alloc(lst(x), "array")
        return pos[0] if pos[0].op == "ref" else I.alloc(x, "array")

    def np_atleast_2d(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if rank(x) == 1:
            return I.alloc(app("row2d", x), "array")
        if rank(x) == 0:
            return I.alloc(lst(lst(x)), "array")
        return pos[0]

    def np_broadcast_arrays(self, I, pos, kw, node):
        xs = [self.V(I, p) for p in pos]
        n = None
        for x in xs:
            if rank(x) == 1:
                n = arr_len(x)
        if n is None:
            return lst(*pos)
        return lst(*[p if rank(x) == 1 else I.alloc(app("full", n, x), "array") for p, x in zip(pos, xs)])

    def np_broadcast_to(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        s = self.V(I, pos[1])
        if s.op == "list" and len(s.args) == 1:
            s = s.args[0]
        if rank(x) == 0 and rank(s) == 0:
            return app("full", s, x)
        return app("broadcast_to", x, s)

    def np_ravel(self, I, pos, kw, node):
        o = pos[0]
        x = self.V(I, o)
        r = rank(x)
        if r == 1:
            return o
        if r == 0:
            return I.alloc(lst(x), "array")
        if x.op == "list" and all(y.op == "list" for y in x.args):
            return I.alloc(concat(*x.args), "array")
        return I.alloc(app("ravel", x), "array")

    def np_flatten(self, I, pos, kw, node):
        r = self.np_ravel(I, pos, kw, node)
        return self.asarray(I, r, True)

    def np_squeeze(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if rank(x) in (0, 1):
            return pos[0]
        return app("squeeze", x)

    def np_reshape(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        s = [self.V(I, p) for p in pos[1:]]
        if len(s) == 1 and s[0].op == "list":
            s = list(s[0].args)
        if len(s) == 1 and as_int(s[0]) == -1:
            return self.np_ravel(I, [pos[0]], kw, node)
        if len(s) == 2 and as_int(s[0]) == -1 and as_int(s[1]) == 1 and rank(x) == 1:
            return I.view(pos[0], ("idx", mk("idxt", FULL, NONE))) if pos[0].op == "ref" else getitem(x, mk("idxt", FULL, NONE))
        if len(s) == 2 and as_int(s[0]) == 1 and as_int(s[1]) == -1 and rank(x) == 1:
            return getitem(x, NONE)
        if rank(x) == 1 and len(s) == 1 and s[0] is arr_len(x):
            return pos[0]
        if rank(x) is not None and s and (self.shape(x).args == tuple(s) if self.shape(x).op == "list" else False):
            return pos[0]
        return app("reshape", x, lst(*s))

    def np_expand_dims(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        ax = as_int(kw.get("axis", pos[1] if len(pos) > 1 else ZERO))
        if rank(x) == 1 and ax in (1, -1):
            return getitem(x, mk("idxt", FULL, NONE))
        if rank(x) == 1 and ax == 0:
            return getitem(x, NONE)
        return app("expand_dims", x, num(ax))

    def np_transpose(self, I, pos, kw, node):
        if pos[0].op == "ref" and len(pos) == 1:
            return I.getattr_(pos[0], "T", I.fr)
        if len(pos) > 1 or kw.get("axes", NONE) is not NONE:
            return app("?transpose", *[I.freeze(p) for p in pos])
        return transpose(self.V(I, pos[0]))

    def np_flipud(self, I, pos, kw, node):
        if pos[0].op == "ref" and I.kind(pos[0]) == "array":
            return I.view(pos[0], ("idx", norm.REV))
        return norm.flipud(self.V(I, pos[0]))

    def np_flip(self, I, pos, kw, node):
        ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
        x = self.V(I, pos[0])
        if rank(x) == 1 or (ax is not None and as_int(ax) == 0):
            return self.np_flipud(I, pos[:1], {}, node)
        return app("flip", x, ax if ax is not None else NONE)

    def np_fliplr(self, I, pos, kw, node):
        return app("fliplr", self.V(I, pos[0]))

    def np_diff(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        return self.arith(I, "sub", getitem(x, mk("slice", ONE, NONE, NONE)), getitem(x, mk("slice", NONE, num(-1), NONE)))

    def np_sort(self, I, pos, kw, node):
        return I.alloc(app("sort", self.V(I, pos[0])), "array")

    def np_argsort(self, I, pos, kw, node):
        return I.alloc(app("argsort", self.V(I, pos[0])), "array")

    def np_lexsort(self, I, pos, kw, node):
        return I.alloc(app("lexsort", self.V(I, pos[0])), "array")

    def np_unique(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        u = I.alloc(app("unique", x), "array")
        if len(pos) > 1:
            return top("unique with options")
        extra = []
        for k in ("return_index", "return_inverse", "return_counts"):
            f = kw.get(k, FALSE)
            if f is TRUE:
                extra.append(I.alloc(app("unique_" + k[7:], x), "array"))
            elif f is not FALSE:
                return top("unique with options")
        return lst(u, *extra) if extra else u

    def np_interp(self, I, pos, kw, node):
        a = [self.V(I, p) for p in pos]
        return mk("app", "interp", tuple(a), tuple(sorted((k, self.V(I, v)) for k, v in kw.items())))

    def np_round(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        d = kw.get("decimals", pos[1] if len(pos) > 1 else ZERO)
        return self.elem(I, "round", x, self.V(I, d)) if rank(x) is not None else app("round", x, self.V(I, d))

    np_around = np_round_ = np_round

    def np_allclose(self, I, pos, kw, node):
        return mk("app", "allclose", tuple(self.V(I, p) for p in pos), tuple(sorted((k, self.V(I, v)) for k, v in kw.items())))

    def np_isclose(self, I, pos, kw, node):
        return mk("app", "isclose", tuple(self.V(I, p) for p in pos), tuple(sorted((k, self.V(I, v)) for k, v in kw.items())))

    def np_array_equal(self, I, pos, kw, node):
        a, b = self.V(I, pos[0]), self.V(I, pos[1])
        return TRUE if a is b else app("array_equal", a, b)

    def np_finfo(self, I, pos, kw, node):
        return app("finfo")

    def np_errstate(self, I, pos, kw, node):
        return app("ctx", const("errstate"))

    def basic(self, i):
        return basic(i)

    def np_eye(self, I, pos, kw, node):
        n = as_int(pos[0]) if len(pos) == 1 and set(kw) <= {"dtype"} else None
        if n is None or n > 6:
            return app("?numpy.eye", *[I.freeze(p) for p in pos])
        return I.alloc(lst(*[lst(*[ONE if i == j else ZERO for j in range(n)]) for i in range(n)]), "array")

    np_identity = np_eye

    def np_diagonal(self, I, pos, kw, node):
        return app("diagonal", self.V(I, pos[0]))

    def np_diag(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        return app("diagonal", x) if rank(x) != 1 else app("diagmat", x)

    def np_repeat(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if rank(x) == 0:
            return app("full", self.V(I, pos[1]), x)
        return app("nprepeat", x, self.V(I, pos[1]))

    def np_tile(self, I, pos, kw, node):
        return app("tile", self.V(I, pos[0]), self.V(I, pos[1]))

    def np_isin(self, I, pos, kw, node):
        return app("isin", self.V(I, pos[0]), self.V(I, pos[1]))

    def np_searchsorted(self, I, pos, kw, node):
        return mk("app", "searchsorted", tuple(self.V(I, p) for p in pos), tuple(sorted((k, I.freeze(v)) for k, v in kw.items())))

    def np_take(self, I, pos, kw, node):
        return getitem(self.V(I, pos[0]), self.V(I, pos[1]))

    def np_delete(self, I, pos, kw, node):
        return app("npdelete", *[self.V(I, p) for p in pos])

    def np_linalg_svd(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        I.may_raise("LinAlgError", lst(app("svd", x)))
        k = tuple(sorted((q, I.freeze(v)) for q, v in kw.items()))
        return lst(*[I.alloc(mk("app", f"u:svd_{n}:{kd}", (x,), k), "array") for n, kd in (("U", "arr2"), ("s", "arr"), ("Vh", "arr2"))])

    def np_linalg_inv(self, I, pos, kw, node):
        return app("inv", self.V(I, pos[0]))

    def np_linalg_norm(self, I, pos, kw, node):
        x = self.V(I, pos[0])
        if len(pos) > 1 or any(k != "axis" for k in kw) or kw.get("axis", NONE) is not NONE:
            return top("numpy.linalg.norm with options")
        m = app("abs", x)
        return app("sqrt", self.reduce(I, "sum", self.arith(I, "mul", m, m)))

    def np_savetxt(self, I, pos, kw, node):
        dest = pos[0]
        if dest.op == "obj":
            dest = app("handle", I.st.h.get(("a", dest.args[0], "src"), NONE))
        self.effect(I, "savetxt", [dest, self.V(I, pos[1])], kw)
        return NONE

    def np_loadtxt(self, I, pos, kw, node):
        src = self.source(I, pos[0])
        k = {q: I.freeze(v) for q, v in kw.items()}
        k.pop("encoding", None)
        dt = kw.get("dtype")
        k.pop("dtype", None)
        unpack = k.pop("unpack", FALSE)
        k.pop("ndmin", None)
        t = mk("app", "loadtxt", (src,), tuple(sorted(k.items())))
        I.may_raise("ValueError", lst(t))
        if unpack is TRUE:
            t = transpose(t)
        return self.cast(I, I.alloc(t, "array"), dt)

    np_genfromtxt = np_loadtxt

    # scipy / pandas / os / misc
    def x_scipy_fftpack_hilbert(self, I, pos, kw, node):
        return app("hilbert", self.V(I, pos[0]))

    def x_scipy_optimize__numdiff_approx_derivative(self, I, pos, kw, node):
        """numerical Jacobian: evaluates the callback at unspecified points near x0"""
        f, x0 = pos[0], self.V(I, pos[1])
        ne = len(I.exits)
        st0 = I.st.copy()
        probe = app("u:probe:arr", x0, num(I.nprobe()))
        key_args = None
        # value of the callback as a function of its argument
        arg = sym("x@jac", "arr")
        save = I.st.copy()
        res = I.call(f, [I.alloc(probe, "array")], {})
        resf = I.freeze(res)
        # the state the callback leaves behind is the state at some probe point
        I.may_raise("FloatingPointError", lst(app("jac", x0)))
        I.may_raise("AnyException", lst(app("jac", x0)))
        jac = app("u:jac:arr2", subst(resf, {probe.id: arg}), x0)
        return I.alloc(jac, "array")

    x_scipy_optimize_approx_derivative = x_scipy_optimize__numdiff_approx_derivative

    def x_pandas_read_csv(self, I, pos, kw, node):
        src = self.source(I, pos[0])
        k = {}
        for q, v in kw.items():
            v = I.freeze(v)
            if q in ("encoding", "engine"):
                continue
            if q == "delimiter":
                q = "sep"
            k[q] = v
        if "sep" not in k:
            k["sep"] = const(",")
        if "skiprows" in k and k["skiprows"] is ZERO:
            k.pop("skiprows")
        use = k.pop("usecols", None)
        names = k.pop("names", None)
        t = mk("app", "read_csv", (src,), tuple(sorted(k.items())))
        if use is not None and names is None:
            t = app("cols", t, use) if use.op == "list" and all(is_str(y) for y in use.args) else app("?usecols", t, use)
        if names is not None and names.op == "list":
            # columns are positional
            t = mk("dict", *[(n, app("csvcol", t, num(i))) for i, n in enumerate(names.args)])
            r = I.alloc(t, "df")
            return r
        return I.alloc(t, "df")

    def x_pandas_DataFrame(self, I, pos, kw, node):
        cols = kw.get("columns")
        index = kw.get("index")
        if not pos and cols is not None and index is not None:
            names = I.freeze(cols)
            ix = I.freeze(index)
            n = arr_len(ix)
            c = I.alloc(mk("dict", *[(x, app("full", n, NAN)) for x in names.args]), "df")
            first = getitem(ix, ZERO)
            if as_int(first) is not None:
                I.dfbase[c.args[0]] = as_int(first)
            return c
        if pos and I.d(pos[0]).op == "dict":
            d = I.d(pos[0])
            return I.alloc(mk("dict", *[(k, self.V(I, v)) for k, v in d.args]), "df")
        return I.alloc(mk("app", "df", tuple(I.freeze(p) for p in pos), tuple(sorted((k, I.freeze(v)) for k, v in kw.items()))), "df")

    def x_pandas_concat(self, I, pos, kw, node):
        return app("?pd.concat", I.freeze(pos[0]))

    def x_copy_deepcopy(self, I, pos, kw, node):
        return self.dcopy(I, pos[0], {})

    def x_copy_copy(self, I, pos, kw, node):
        o = pos[0]
        if o.op == "obj":
            cls = I.objcls[o.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__copy__")
                if m:
                    return I.call_func(m[1], [o], {})
            n = I.newobj(cls)
            for k, v in list(I.st.h.items()):
                if k[0] == "a" and k[1] == o.args[0]:
                    I.st.h[("a", n.args[0], k[2])] = v
            return n
        if o.op == "ref":
            c = I.alloc(I.d(o), I.kind(o))
            if o.args[0] in I.dfbase:
                I.dfbase[c.args[0]] = I.dfbase[o.args[0]]
            return c
        return o

    def dcopy(self, I, v, memo):
        if v in memo:
            return memo[v]
        if v.op == "ref":
            c = I.alloc(NONE, I.kind(v))
            memo[v] = c
            if v.args[0] in I.dfbase:
                I.dfbase[c.args[0]] = I.dfbase[v.args[0]]
            I.st.h[("c", c.args[0])] = rewrite(I.d(v), lambda t: self.dcopy(I, t, memo) if t.op in ("ref", "obj") else None)
            return c
        if v.op == "obj":
            n = I.newobj(I.objcls[v.args[0]])
            memo[v] = n
            for k, w in list(I.st.h.items()):
                if k[0] == "a" and k[1] == v.args[0]:
                    I.st.h[("a", n.args[0], k[2])] = rewrite(w, lambda t: self.dcopy(I, t, memo) if t.op in ("ref", "obj") else None)
            return n
        return rewrite(v, lambda t: self.dcopy(I, t, memo) if t.op in ("ref", "obj") else None)

    def x_operator_index(self, I, pos, kw, node):
        v = self.V(I, pos[0])
        if is_num(v) and cval(v).denominator != 1 or is_const(v) and not is_num(v):
            I.raise_("TypeError")
        return v

    def x_operator_itemgetter(self, I, pos, kw, node):
        return app("?itemgetter", *[I.freeze(p) for p in pos])

    def x_functools_partial(self, I, pos, kw, node):
        return mk("partial", pos[0], tuple(pos[1:]), tuple(sorted(kw.items())))

    def x_functools_reduce(self, I, pos, kw, node):
        s = I.iter_term(pos[1])
        if s.op == "list":
            items = list(s.args)
            acc = pos[2] if len(pos) > 2 else items.pop(0)
            for x in items:
                acc = I.call(pos[0], [acc, x], {})
            return acc
        return app("?reduce", I.freeze(s))

    def x_itertools_chain(self, I, pos, kw, node):
        return concat(*[I.iter_term(p) for p in pos])

    def x_itertools_islice(self, I, pos, kw, node):
        s = I.iter_term(pos[0])
        a = [self.V(I, p) for p in pos[1:]]
        if len(a) == 1:
            return getitem(s, mk("slice", NONE, a[0], NONE))
        return getitem(s, mk("slice", a[0], a[1], a[2] if len(a) > 2 else NONE))

    def x_io_StringIO(self, I, pos, kw, node):
        x = I.d(pos[0]) if I.isref(pos[0]) else pos[0]
        if x.op == "app" and x.args[0] == "text":
            x = x.args[1][0]
        elif x.op == "app" and x.args[0] == "str.join" and is_str(x.args[1][0]) and cval(x.args[1][0]) == "":
            x = x.args[1][1]
        o = I.newobj("file")
        I.st.h[("a", o.args[0], "src")] = app("memfile", x)
        I.st.h[("a", o.args[0], "pos")] = ZERO
        return app("StringIO", x)

    def x_os_path_join(self, I, pos, kw, node):
        ps = [I.freeze(p) for p in pos]
        if is_str(ps[0]):
            out = []
            for p in ps:          # later parts are taken to be relative
                if out and not (is_str(out[-1]) and cval(out[-1]).endswith("/")):
                    out.append(const("/"))
                out.append(p)
            return self.strcat(out)
        return app("pathjoin", *ps)

    def x_os_path_basename(self, I, pos, kw, node):
        x = I.freeze(pos[0])
        if is_str(x):
            import os
            return const(os.path.basename(cval(x)))
        return app("basename", x)

    def x_os_path_dirname(self, I, pos, kw, node):
        x = I.freeze(pos[0])
        if is_str(x):
            import os
            return const(os.path.dirname(cval(x)))
        return app("dirname", x)

    def x_os_path_abspath(self, I, pos, kw, node):
        x = I.freeze(pos[0])
        if is_str(x) and cval(x).startswith("/"):
            return x
        return app("abspath", x)

    def x_os_path_splitext(self, I, pos, kw, node):
        x = I.freeze(pos[0])
        return lst(app("pathroot", x), app("pathext", x))

    def x_os_fspath(self, I, pos, kw, node):
        return pos[0]

    def x_pathlib_Path(self, I, pos, kw, node):
        return pos[0] if pos else app("cwd")

    x_pathlib_PurePath = x_pathlib_Path

    def x_glob_glob(self, I, pos, kw, node):
        x = I.freeze(pos[0])
        if is_str(x) and cval(x).startswith("/@repo/"):
            import glob
            import os
            root = os.environ.get("VERIF_REPO", "/repo")
            return I.alloc(lst(*[const("/@repo" + f[len(root):]) for f in sorted(glob.glob(root + cval(x)[6:]))]), "list")
        return I.alloc(app("glob", x), "list")

    def x_math_isclose(self, I, pos, kw, node):
        return self.np_isclose(I, pos, kw, node)

    def x_refnx_reflect__reflect__contract_by_area(self, I, pos, kw, node):
        b = dict(zip(("slabs", "dA"), pos))
        b.update(kw)
        return I.alloc(app("u:contract:arr2", self.V(I, b["slabs"]), self.V(I, b["dA"]) if "dA" in b else const(0.5)), "array")

    def x_refnx_reflect_structure_sld_profile(self, I, pos, kw, node):
        b = dict(zip(("slabs", "z", "max_delta_z"), pos))
        b.update(kw.items())
        a = [self.V(I, b[k]) if k in b else NONE for k in ("slabs", "z", "max_delta_z")]
        return lst(I.alloc(app("u:zed:arr", *a), "array"), I.alloc(app("u:prof:arr", *a), "array"))

    def x_collections_defaultdict(self, I, pos, kw, node):
        return app("?defaultdict", *[I.freeze(p) for p in pos])

    x_collections_OrderedDict = b_dict


STRM = {"split", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith", "splitlines", "partition",
        "rpartition", "isdigit", "find", "rfind", "title", "casefold", "rsplit", "join", "format", "count", "encode", "decode",
        "zfill", "isnumeric", "removesuffix", "removeprefix"}


def basic(i):
    """basic indexing: yields a view"""
    items = i.args if i.op == "idxt" else (i,)
    sl = False
    for x in items:
        if x.op == "slice" or x is NONE or x is ELL:
            sl = True
        elif rank(x) == 0 and not is_maskish(x):
            sl = True
        else:
            return False
    return sl


def same_rank(t):
    p, q = rank(t.args[1]), rank(t.args[2])
    return p is not None and p == q


def boolarr(x):
    if x.op in ("lt", "le", "eq", "not", "and") or (x.op == "app" and x.args[0] in BOOL_APPS) or kindof(x) in ("barr", "bool"):
        return x
    if x is TRUE or x is FALSE:
        return x
    if x.op == "getitem" and kindof(x.args[0]) == "barr":
        return x
    if x.op == "app" and x.args[0] == "full" and x.args[1][1] in (TRUE, FALSE):
        return x
    if is_num(x):
        return const(cval(x) != 0)
    return not_(mk("eq", x, ZERO))


def lines_from(src, pos):
    if src.op == "app" and src.args[0] == "memfile":
        base = src.args[1][0]
    else:
        base = app("lines", src)
    if pos is ZERO:
        return base
    return getitem(base, mk("slice", pos, NONE, NONE))


def fval(t):
    if is_num(t):
        return float(cval(t))
    if is_const(t) and isinstance(cval(t), tuple) and cval(t)[0] == "float":
        return float(cval(t)[1])
    if t.op == "neg":
        v = fval(t.args[0])
        return -v if v is not None else None
    return None


def positive(x):
    """array all of whose elements are positive"""
    if kindof(x) == "posarr":
        return True
    if x.op in ("mul", "div"):
        return all(positive(y) or (rank(y) == 0 and sign_of(y) == 1) for y in x.args)
    if x.op == "getitem" and x.args[1].op == "app" and x.args[1].args[0] == "argsort":
        return positive(x.args[0])
    if x.op == "app" and x.args[0] in ("sort", "unique", "flip"):
        return positive(x.args[1][0])
    return False


def sign_of(t):
    """sign of a term when it is the same for all values of its operands"""
    if is_num(t):
        v = cval(t)
        return (v > 0) - (v < 0)
    k = kindof(t)
    if k in ("posreal", "posint"):
        return 1
    if t.op == "neg":
        s = sign_of(t.args[0])
        return -s if s is not None else None
    if t.op == "mul" or t.op == "div":
        a, b = sign_of(t.args[0]), sign_of(t.args[1])
        return a * b if a is not None and b is not None and (t.op == "mul" or b != 0) else None
    if t.op == "add":
        a, b = sign_of(t.args[0]), sign_of(t.args[1])
        if a is not None and b is not None and a == b:
            return a
        if a == 0:
            return b
        if b == 0:
            return a
        # x + positive constant where x is a length
        return None
    return None


def isreal(x):
    if is_num(x):
        return True
    if is_const(x):
        return True
    if x.op == "sym":
        return x.args[1] in ("real", "posreal", "int", "posint", "arr", "posarr", "narr", "arr2", "narr2", "bool", "barr", "unit", "posarr2")
    if x.op == "app":
        f = x.args[0]
        if f in ("real", "imag", "abs", "pi", "eps", "angle", "len", "zeros_like", "vals", "float", "int", "loadtxt", "col", "gmean", "gkey",
                 "round", "count", "toint", "float32", "linspace", "hilbert"):
            return f != "hilbert" or all(isreal(y) for y in x.args[1])
        if f in ("sum", "mean", "min", "max", "minimum", "maximum", "full", "interp", "cos", "sin", "exp", "arctan", "heaviside", "sort",
                 "unique", "tan", "mod", "T", "sign"):
            return all(isreal(y) for y in x.args[1])
        if isinstance(f, str) and f.startswith("u:"):
            return f.split(":")[2] in ("real", "posreal", "arr", "posarr", "arr2", "int")
        return False
    if x.op in ("add", "mul", "neg", "div"):
        return all(isreal(y) for y in x.args)
    if x.op == "pow":
        return isreal(x.args[0]) and is_num(x.args[1]) and cval(x.args[1]).denominator == 1
    if x.op == "getitem":
        if x.args[0].op == "sym" and x.args[0].args[0] == "F.value":
            return True
        return isreal(x.args[0])
    if x.op == "setitem":
        if x.args[0].op == "sym" and str(x.args[0].args[0]).startswith("F."):
            return True
        return isreal(x.args[0]) and isreal(x.args[2])
    if x.op in ("ite", "where"):
        return isreal(x.args[1]) and isreal(x.args[2])
    if x.op in ("list", "concat"):
        return all(isreal(y) for y in x.args)
    if x.op == "idx":
        return True
    if x.op in ("lt", "le", "eq", "not", "and"):
        return True
    if x.op == "map" or x.op == "bigsum":
        return isreal(x.args[2])
    if x.op == "mu":
        i = norm.MU_INIT.get(x.id)
        return False
    return False


def reim(fn, x):
    """real / imaginary part, pushed through sums and real factors"""
    if isreal(x):
        return x if fn == "real" else zero_like(x)
    if x.op == "imag_unit":
        return ZERO if fn == "real" else ONE
    if x.op == "add":
        return add(reim(fn, x.args[0]), reim(fn, x.args[1]))
    if x.op == "neg":
        return neg(reim(fn, x.args[0]))
    if x.op == "mul":
        p, q = x.args
        for u, v in ((p, q), (q, p)):
            if u is IMAG:
                return neg(reim("imag", v)) if fn == "real" else reim("real", v)
            if isreal(u):
                r = reim(fn, v)
                return mul(u, r) if r is not ZERO else ZERO
    if x.op == "div" and isreal(x.args[1]):
        return div(reim(fn, x.args[0]), x.args[1])
    if x.op == "setitem" and isreal(x.args[0]) and False:
        pass
    return app(fn, x)


def zero_like(x):
    return ZERO


def vacuous(cond, upd, old):
    """cond: some entry of p exceeds c; upd == old with p limited to c"""
    # any(c < imag(d)) guarding setimag(d, minimum(imag(d), c))
    if cond.op != "lt":
        return False
    c, p = cond.args
    if upd.op == "app" and upd.args[0] in ("setimag", "setreal"):
        base, new = upd.args[1]
        part = reim("imag" if upd.args[0] == "setimag" else "real", base)
        if base is old and part is p and new.op == "app" and new.args[0] == "minimum" and set(new.args[1]) == {p, c}:
            return True
    if upd.op == "app" and upd.args[0] == "minimum" and set(upd.args[1]) == {p, c} and old is p:
        return True
    # d.real + 1j*minimum(d.imag, c)
    if upd.op == "add":
        for a, b in ((upd.args[0], upd.args[1]), (upd.args[1], upd.args[0])):
            if a is reim("real", old) and b.op == "mul":
                for u, v in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                    if u is IMAG and v.op == "app" and v.args[0] == "minimum" and set(v.args[1]) == {p, c} and p is reim("imag", old):
                        return True
    # where(p > c, c, p)
    if upd.op == "where" and upd.args[0] is cond and old is upd.args[2]:
        return True
    return False


def needs_cast(x):
    return dtype_root(x) is not None


def dtype_root(x):
    """caller array whose (unknown) dtype this array inherits"""
    k = kindof(x)
    if k in ("narr", "narr2"):
        return x
    if x.op == "getitem" and x.args[0].op in ("sym", "getitem", "app"):
        return dtype_root(x.args[0])
    if x.op == "app" and x.args[0] in ("T", "unique", "sort"):
        return dtype_root(x.args[1][0])
    if x.op == "setitem":
        return dtype_root(x.args[0])
    if x.op == "app" and x.args[0] == "full_like_dtype":
        return x.args[1][2]
    return None


def drop_none(x):
    if x.op == "ite":
        if x.args[1] is NONE:
            return drop_none(x.args[2])
        if x.args[2] is NONE:
            return drop_none(x.args[1])
    return x


def flat_rows(x):
    """concatenation of the elements of a sequence of arrays"""
    if x.op == "list":
        return concat(*x.args)
    if x.op == "concat":
        return concat(*[flat_rows(y) for y in x.args])
    if x.op == "map":
        return mk("flat", x.args[0], x.args[1], x.args[2] if x.args[3] is TRUE else ite(x.args[3], x.args[2], lst()))
    if x.op == "ite":
        return ite(x.args[0], flat_rows(x.args[1]), flat_rows(x.args[2]))
    return app("rowsof", x)


def record_shape(x):
    """(class, attributes) of the records a sequence holds"""
    if x.op == "map":
        e = x.args[2]
        return (e.args[0], tuple(a for a, _ in e.args[1])) if e.op == "record" else None
    if x.op == "flat":
        return record_shape(x.args[2])
    if x.op in ("concat", "ite", "list"):
        ys = x.args[1:] if x.op == "ite" else x.args
        if x.op == "list":
            r = {(e.args[0], tuple(a for a, _ in e.args[1])) if e.op == "record" else None for e in ys}
        else:
            r = {record_shape(y) for y in ys if not (y.op == "list" and not y.args)}
        return r.pop() if len(r) == 1 else None
    return None


def project(x, a):
    if x.op == "map":
        return mkmap(x.args[0], x.args[1], dict(x.args[2].args[1])[a], x.args[3])
    if x.op == "flat":
        return mk("flat", x.args[0], x.args[1], project(x.args[2], a))
    if x.op == "concat":
        return concat(*[project(y, a) for y in x.args])
    if x.op == "ite":
        return ite(x.args[0], project(x.args[1], a), project(x.args[2], a))
    return lst(*[dict(e.args[1])[a] for e in x.args])


def elem_record(t):
    """an element of a sequence of records, as a record"""
    seq, i = t.args
    if not is_scalar_index(i):
        return None
    sh = record_shape(seq)
    if sh is None:
        return None
    return mk("record", sh[0], tuple((a, getitem(project(seq, a), i)) for a in sh[1]))


def colelem(t):
    """a number read from a data frame column"""
    b = t.args[0]
    while b.op == "getitem" and rank(b) == 1:
        b = b.args[0]
    return rank(t) == 0 and b.op == "app" and b.args[0] in ("col", "csvcol", "dropdup", "gkey", "gagg", "arange")
