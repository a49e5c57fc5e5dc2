"""Hash-consed value-graph nodes.

A node is ``T(op, args)``.  ``args`` holds nodes, plain Python constants and
tuples of those.  Two structurally identical nodes are the same object, so
node identity is Herbrand equality; the algebra lives in vn.py.
"""
from fractions import Fraction

_table = {}
CUR = [None]          # (file, function, line) of the source construct being interpreted


class T:
    __slots__ = ("op", "args", "id", "_free", "_ops", "src")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, tuple((type(a).__name__, a) if not isinstance(a, (T, tuple)) else a for a in args))
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = len(_table)
        t._free = None
        t._ops = None
        t.src = CUR[0]
        _table[key] = t
    elif t.src is None:
        t.src = CUR[0]
    return t


class Undef:
    def __repr__(self):
        return "undef"


def num(v):
    if isinstance(v, bool):
        return mk("const", v)
    if isinstance(v, int):
        return mk("const", Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", repr_float(v))
        return mk("const", Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk("const", v)
    if isinstance(v, complex):
        if v.real == 0:
            return mul(num(v.imag), IMAG) if v.imag != 1 else IMAG
        return add(num(v.real), mul(num(v.imag), IMAG))
    raise TypeError(v)


def repr_float(v):
    return ("float", repr(v))


def const(v):
    if v is None or isinstance(v, (str, bytes, bool)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, (int, float, complex, Fraction)):
        return num(v)
    raise TypeError(v)


IMAG = mk("imag_unit")
NONE = mk("const", None)
TRUE = mk("const", True)
FALSE = mk("const", False)
ZERO = mk("const", Fraction(0))
ONE = mk("const", Fraction(1))


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def is_num(t):
    return is_const(t) and isinstance(t.args[0], Fraction)


def is_str(t):
    return is_const(t) and isinstance(t.args[0], str)


def cval(t):
    return t.args[0]


def as_int(t):
    if is_num(t) and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


def sym(name, kind="any"):
    return mk("sym", name, kind)


def top(reason):
    return mk("top", reason)


def app(fn, *args, **kw):
    return mk("app", fn, tuple(args), tuple(sorted(kw.items())))


def add(a, b):
    if is_num(a) and is_num(b):
        return num(cval(a) + cval(b))
    if is_num(a) and cval(a) == 0:
        return b
    if is_num(b) and cval(b) == 0:
        return a
    if is_num(b) and a.op == "add" and is_num(a.args[1]):
        return add(a.args[0], num(cval(a.args[1]) + cval(b)))
    if is_num(a):
        a, b = b, a
        if a.op == "add" and is_num(a.args[1]):
            return add(a.args[0], num(cval(a.args[1]) + cval(b)))
    return mk("add", a, b)


def neg(a):
    if is_num(a):
        return num(-cval(a))
    return mk("neg", a)


def sub(a, b):
    if a is b and a.op != "top":
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if is_num(a) and is_num(b):
        return num(cval(a) * cval(b))
    if is_num(a) and cval(a) == 1:
        return b
    if is_num(b) and cval(b) == 1:
        return a
    return mk("mul", a, b)


def div(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return num(cval(a) / cval(b))
    if is_num(b) and cval(b) == 1:
        return a
    return mk("div", a, b)


def power(a, b):
    i = as_int(b)
    if is_num(a) and i is not None and abs(i) < 64 and (cval(a) != 0 or i >= 0):
        return num(cval(a) ** i)
    if is_num(b) and cval(b) == 1:
        return a
    if is_num(b) and cval(b) == Fraction(1, 2):
        return app("sqrt", a)
    return mk("pow", a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if b is TRUE and is_boolish(a):
        return or_(not_(c), a)
    if b is FALSE and is_boolish(a):
        return and_(c, a)
    if a is TRUE and is_boolish(b):
        return or_(c, b)
    if a is FALSE and is_boolish(b):
        return and_(not_(c), b)
    if c.op in BOOL_OPS or c.op == "mu":
        if a is c:
            return ite(c, TRUE, b)
        if b is c:
            return ite(c, a, FALSE)
    # absorb nested identical gates
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


BOOL_OPS = {"lt", "le", "eq", "is", "in", "not", "and", "truthy", "isinstance", "typeis", "hasattr", "exc"}
BOOL_APPS = {"isnan", "isfinite", "isinf", "any", "all", "allclose", "isclose", "isscalar", "callable",
             "is_parameter", "logical_and", "logical_or", "logical_not", "bool", "endswith", "startswith"}


def is_boolish(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op in BOOL_OPS:
        return True
    if t.op == "app" and t.args[0] in BOOL_APPS:
        return True
    return False


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


_EMPTY = frozenset()


def free_mu(t):
    """free binder variables (loop indices, loop-carried values) of t."""
    if t._free is None:
        # iterative post-order: graphs can be deep
        stack = [t]
        while stack:
            x = stack[-1]
            if x._free is not None:
                stack.pop()
                continue
            kids = [k for k in _kids(x) if k._free is None]
            if kids:
                stack.extend(kids)
                continue
            stack.pop()
            acc = set()
            if x.op in ("mu", "idx"):
                acc.add(x)
            for k in _kids(x):
                acc |= k._free
            if x.op in ("map", "bigsum", "exists", "until", "first", "flat", "dictmap"):
                acc.discard(x.args[0])
            elif x.op == "loop":
                acc.discard(x.args[0])
                for m in x.args[2]:
                    acc.discard(m)
            x._free = frozenset(acc) if acc else _EMPTY
    return t._free


def _kids(x):
    out = []
    st = list(x.args)
    while st:
        a = st.pop()
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            st.extend(a)
    return out


def rewrite(t, f, memo=None):
    """bottom-up rebuild; f(node)->node or None."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x.id)
            if r is not None:
                return r
            r0 = f(x)
            if r0 is not None:
                memo[x.id] = r0
                return r0
            na = tuple(go(a) for a in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
            memo[x.id] = r
            return r
        if isinstance(x, tuple):
            na = tuple(go(a) for a in x)
            return na if any(p is not q for p, q in zip(na, x)) else x
        return x

    return go(t)


REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    if op == "add":
        return add(*a)
    if op == "neg":
        return neg(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "pow":
        return power(*a)
    if op == "not":
        return not_(*a)
    if op == "and":
        return and_(*a)
    if op == "ite":
        return ite(*a)
    return mk(op, *a)


_SH = {"add": "+", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "==", "is": " is ", "and": " and "}


def show(t, depth=9):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(a, depth) for a in t) + ")"
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "const":
        v = t.args[0]
        if isinstance(v, Fraction):
            return str(int(v)) if v.denominator == 1 else str(float(v))
        if isinstance(v, tuple) and v and v[0] == "float":
            return v[1]
        return repr(v)
    if op == "imag_unit":
        return "1j"
    if op == "sym":
        return str(t.args[0])
    if op == "field":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if op == "idx":
        return f"i{t.args[0]}"
    if op in ("map", "bigsum"):
        g = "" if len(t.args) < 4 or t.args[3] is TRUE else f" if {show(t.args[3], d)}"
        return f"{op}({show(t.args[2], d)} for {show(t.args[0])} < {show(t.args[1], d)}{g})"
    if op == "loopval":
        return f"loop#{t.args[1]}(n={show(t.args[0].args[1], d)})"
    if op == "mu":
        return f"carried[{t.args[2]}]"
    if op == "neg":
        return f"-{show(t.args[0], d)}"
    if op == "not":
        return f"not {show(t.args[0], d)}"
    if op in _SH:
        return "(" + _SH[op].join(show(a, d) for a in t.args) + ")"
    if op == "ite":
        return f"({show(t.args[1], d)} if {show(t.args[0], d)} else {show(t.args[2], d)})"
    if op == "app":
        fn, pos, kw = t.args
        parts = [show(a, d) for a in pos] + [f"{k}={show(v, d)}" for k, v in kw]
        return f"{fn}({', '.join(parts)})"
    if op == "getitem":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if op == "setitem":
        return f"{show(t.args[0], d)}{{[{show(t.args[1], d)}]:={show(t.args[2], d)}}}"
    if op == "list":
        return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    if op == "top":
        return f"⊤<{t.args[0]}>"
    return f"{op}({', '.join(show(a, d) for a in t.args)})"
