"""Abstract interpreter: Python source -> gated value graph.

One pass over the syntax tree per function context.  Control-flow joins merge
states with gates (gated single assignment), loops are solved to a fixpoint of
their carried slots, calls are resolved and inlined through the class table,
aliasing is tracked through heap cells and views.  Nothing of the analysed
program is executed: all values are symbolic graph nodes and every branch is
analysed.
"""
import ast
import copy
import os

from .terms import *
from . import norm
from .norm import getitem, setitem, lst, concat, FULL, ELL, rank, arr_len

MAXDEPTH = 60
KNOWN_DECORATORS = ("property", "setter", "staticmethod", "classmethod", "contextmanager", "abstractmethod", "override", "deleter", "getter")


def is_memo(d):
    return d.split("(")[0].split(".")[-1] in ("cache", "lru_cache")


SETDEF = {}


class Rebind(Exception):
    """a name is read before the round of the loop that binds it"""


class Dead(Exception):
    """the current abstract state is unreachable from here on"""


class Unsupported(Exception):
    pass


class AnchorMissing(Exception):
    pass


class St:
    __slots__ = ("h", "pc")

    def __init__(self, h, pc):
        self.h, self.pc = h, pc

    def copy(self):
        return St(dict(self.h), self.pc)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}
        self.is_pkg = path.endswith("__init__.py")
        for n in tree.body:
            self._collect(n)
        self.script = None
        if not self.is_pkg:
            self._script()

    def _script(self):
        """module constants that more than one plain assignment builds are obtained by
        analysing the module's statements in order"""
        flat = lambda n: isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or \
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
        rest = [n for n in self.tree.body if not flat(n)]
        bound, odd = {}, []
        for n in rest:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if all(isinstance(t, ast.Name) for t in ts):
                    for t in ts:
                        bound[t.id] = bound.get(t.id, 0) + 1
                    continue
            elif isinstance(n, (ast.If, ast.Try)) and not any(
                    isinstance(m, (ast.For, ast.While, ast.AugAssign)) or isinstance(m, ast.Assign) for m in ast.walk(n)):
                continue
            odd.append(n)
        names = set()
        for n in odd:
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and (m.id in bound or isinstance(m.ctx, ast.Store)):
                    names.add(m.id)
        names |= {k for k, c in bound.items() if c > 1}
        if names:
            self.script = [n for n in rest if any(isinstance(m, ast.Name) and (m.id in bound or m.id in names)
                                                  for m in ast.walk(n))]
            for n in list(bound) + sorted(names):
                self.defs[n] = ("script",)

    def _collect(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                nm = a.asname or a.name.split(".")[0]
                self.defs[nm] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.defs[a.asname or a.name] = ("from", n.module or "", n.level, a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = ("assign", n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.defs[n.target.id] = ("assign", n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in n.body:
                self._collect(b)


class Func:
    def __init__(self, node, module, closure, cls=None, qual=""):
        self.node, self.module, self.closure, self.cls, self.qual = node, module, closure, cls, qual


class Class:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.members = {}
        self.attrs = {}

    def mro(self):
        # C3 is not needed: linear hierarchies plus mixins, left to right
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, Class):
                    out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None


UNBOUND = mk("unbound")
HASOBJ = {}
ISREF = {}


class Program:
    """resolved source: modules by dotted name"""

    def __init__(self, roots, models):
        # roots: {package name: directory}, models: {dotted name: file}
        self.roots, self.models = roots, models
        self.mods = {}
        self.files = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = None
        if name in self.models:
            path = self.models[name]
        else:
            top_ = name.split(".")[0]
            if top_ in self.roots:
                p = os.path.join(self.roots[top_], *name.split(".")[1:])
                if os.path.isfile(p + ".py"):
                    path = p + ".py"
                elif os.path.isfile(os.path.join(p, "__init__.py")):
                    path = os.path.join(p, "__init__.py")
        if path is None:
            self.mods[name] = None
            return None
        with open(path, encoding="utf8") as f:
            src = f.read()
        m = Module(name, path, ast.parse(src, path))
        self.files[path] = src
        self.mods[name] = m
        return m


EXC_PARENTS = {
    "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "AssertionError": "Exception", "ArithmeticError": "Exception", "FloatingPointError": "ArithmeticError",
    "ZeroDivisionError": "ArithmeticError", "AttributeError": "Exception", "StopIteration": "Exception",
    "OSError": "Exception", "IOError": "Exception", "FileNotFoundError": "OSError", "LinAlgError": "ValueError",
    "UnicodeDecodeError": "ValueError", "OverflowError": "ArithmeticError", "EOFError": "Exception",
    "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "AnyException": "Exception",
    "UnboundLocalError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "UserError": "Exception",
}


def bound_of(c):
    """(term, op, constant) of a comparison with a number"""
    neg_ = False
    while c.op == "not":
        c, neg_ = c.args[0], not neg_
    if c.op not in ("lt", "le", "eq") or len(c.args) != 2:
        return None
    a, b = c.args
    if is_num(b) and not is_num(a):
        op = {"lt": "<", "le": "<=", "eq": "eq"}[c.op]
        t, k = a, cval(b)
    elif is_num(a) and not is_num(b):
        op = {"lt": ">", "le": ">=", "eq": "eq"}[c.op]
        t, k = b, cval(a)
    else:
        return None
    if not isinstance(k, (int, float, Fraction)) or isinstance(k, bool):
        return None
    if neg_:
        if op != "eq" and norm.rank(t) != 0:
            return None
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "eq": "ne"}[op]
    return t, op, k


def exc_isa(c, p):
    while c is not None:
        if c == p:
            return True
        c = EXC_PARENTS.get(c)
    return False


def dictval(x):
    return x.op == "dict" or x.op == "ite" and dictval(x.args[1]) and dictval(x.args[2])


def anydict(x):
    return x.op == "dict" or x.op == "ite" and (anydict(x.args[1]) or anydict(x.args[2]))


def holds_dicts(x):
    """a sequence whose elements are dictionaries held by value"""
    if x.op == "list":
        return any(dictval(y) for y in x.args)
    if x.op == "map":
        return dictval(x.args[2])
    if x.op == "flat":
        return holds_dicts(x.args[2])
    if x.op == "concat":
        return any(holds_dicts(y) for y in x.args)
    if x.op == "ite":
        return holds_dicts(x.args[1]) or holds_dicts(x.args[2])
    return False


class Frame:
    __slots__ = ("fid", "func", "module", "parent", "rets", "yields", "depth", "line", "nonlocals", "globals_")

    def __init__(self, fid, func, module, parent, depth):
        self.fid, self.func, self.module, self.parent, self.depth = fid, func, module, parent, depth
        self.rets = []
        self.yields = None
        self.line = 0
        self.nonlocals = set()
        self.globals_ = set()


class Interp:
    def __init__(self, prog, lib):
        self.prog = prog
        self.lib = lib
        self.n = 0
        self.st = St({}, TRUE)
        self.exits = []            # raise exits of the innermost try
        self.trystack = []         # handler class sets, for may-raise modelling
        self.binding = False
        self.elemnames = set()
        self.aliases = set()       # cells that copy what a container holds
        self.loopentry = []        # (entry state, frame) of the loops being summarised
        self.loops = []            # (breaks, continues)
        self.funcs = {}
        self.funckey = {}
        self.classes = {}
        self.objcls = {}
        self.cellkind = {}
        self.views = {}
        self.globcells = {}
        self.files = {}
        self.frames = {}
        self.fr = None
        self.modcache = {}
        self.idxdepth = 0
        self.calls = 0
        self.visited = set()       # functions analysed
        self.sites = 0             # call sites resolved
        self.unknown = set()
        self.memos, self.memoing = {}, set()
        self.yieldcb = []
        self.in_progress = set()
        self.opaque = {}           # qualname -> handler
        self.steps = 0
        self.dfbase = {}           # data frame cell -> first row label
        self.probes = 0
        self.maxsteps = 400000

    # ------------------------------------------------------------ basics
    def uid(self):
        self.n += 1
        return self.n

    def nprobe(self):
        self.probes += 1
        return self.probes

    def alloc(self, content, kind):
        c = self.uid()
        self.cellkind[c] = kind
        self.st.h[("c", c)] = content
        return mk("ref", c)

    def newobj(self, cls):
        o = self.uid()
        self.objcls[o] = cls
        return mk("obj", o)

    def kind(self, v):
        if v.op == "ref":
            return self.cellkind[v.args[0]]
        return None

    def d(self, v):
        """value of a (possibly aliased) reference"""
        if v.op == "ref":
            c = v.args[0]
            if c in self.views:
                base, lens = self.views[c]
                return self.lens_get(self.d(base), lens)
            r = self.st.h.get(("c", c))
            if r is None:
                r = self.globcells.get(c)
            return r if r is not None else top("dangling cell")
        if v.op == "ite":
            a, b = self.d(v.args[1]), self.d(v.args[2])
            if a is v.args[1] and b is v.args[2]:
                return v
            return ite(v.args[0], a, b)
        return v

    def lens_get(self, x, lens):
        k = lens[0]
        if k == "idx":
            return getitem(x, lens[1])
        if k == "T":
            return norm.transpose(x)
        if k == "imag":
            return self.lib.elem(self, "imag", x)
        if k == "real":
            return self.lib.elem(self, "real", x)
        if k == "id":
            return x
        raise Unsupported("lens")

    def lens_put(self, x, lens, new):
        k = lens[0]
        if k == "idx":
            if lens[1] is norm.REV:
                return norm.flipud(new)
            return setitem(x, lens[1], new)
        if k == "T":
            return norm.transpose(new)
        if k == "imag":
            return app("setimag", x, new)
        if k == "real":
            return app("setreal", x, new)
        if k == "id":
            return new
        raise Unsupported("lens")

    def view(self, base, lens):
        c = self.uid()
        self.cellkind[c] = "array"
        self.views[c] = (base, lens)
        return mk("ref", c)

    def put(self, ref, new, cond=None):
        """overwrite what a reference denotes (through views)"""
        if ref.op == "ite":
            a, b = ref.args[1], ref.args[2]
            c = ref.args[0]
            if self.isref(a):
                self.put(a, ite(c, self.pick(new, c, True), self.d(a)))
            if self.isref(b):
                # both may denote the same cell: what is kept is the value by now
                self.put(b, ite(c, self.d(b), self.pick(new, c, False)))
            return
        c = ref.args[0]
        if c in self.views:
            base, lens = self.views[c]
            self.put(base, self.lens_put(self.d(base), lens, new))
        else:
            if c in self.aliases:
                raise Unsupported("update of an element of a container")
            self.st.h[("c", c)] = new

    def pick(self, t, c, pol):
        if t.op == "ite" and t.args[0] is c:
            return t.args[1] if pol else t.args[2]
        return t

    def isref(self, v):
        if v.op != "ite":
            return v.op == "ref"
        r = ISREF.get(v.id)
        if r is None:
            r = ISREF[v.id] = self.isref(v.args[1]) or self.isref(v.args[2])
        return r

    def box(self, v):
        """give a fresh array its own cell so later in-place writes are tracked"""
        if v.op in ("ref", "obj", "const", "func", "bound", "cls", "ext", "mod", "sym", "list", "concat"):
            return v      # an unboxed list is a tuple
        r = rank(v)
        if r is not None and r >= 1:
            c = self.alloc(v, "array")
            if self.part_of(v):
                self.aliases.add(c.args[0])
            return c
        return v

    def part_of(self, v):
        """may the array be the one a container holds, not a fresh one"""
        if v.op == "ite":
            return self.part_of(v.args[1]) or self.part_of(v.args[2])
        if v.op == "getitem":
            return self.lib.basic(v.args[1])
        return self.binding and v.op in ("map", "setitem")

    def arrbox(self, v):
        """an array spelled out entry by entry is still an array, not a tuple"""
        if v.op in ("list", "concat", "map"):
            return self.alloc(v, "array")
        if v.op == "ite" and any(x.op in ("list", "concat", "map") for x in v.args[1:]):
            return self.alloc(v, "array")
        return v

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st=None, seen=()):
        """value with references and objects resolved"""
        save = self.st
        if st is not None:
            self.st = st
        try:
            return self._freeze(v, seen)
        finally:
            self.st = save

    def _freeze(self, v, seen=()):
        memo = {}

        def f(x):
            if x.op == "ref":
                if x in seen:
                    return mk("cyclic")
                return self._freeze(self.d(x), seen + (x,))
            if x.op == "obj":
                if x in seen:
                    return mk("cyclic")
                return self.record(x, seen)
            if x.op == "bound":
                return mk("method", x.args[0], mk("cyclic"))
            return None

        if not any(x.op in ("ref", "obj", "bound") for x in subterms(v)):
            return v
        return rewrite(v, f, memo)

    def record(self, o, seen=()):
        oid = o.args[0]
        cls = self.objcls[oid]
        cname = cls.name if isinstance(cls, Class) else cls
        if cname == "file":
            return app("handle", self.st.h.get(("a", oid, "src"), NONE))
        at = []
        for k, v in self.st.h.items():
            if k[0] == "a" and k[1] == oid:
                at.append((k[2], v))
        at.sort(key=lambda p: p[0])
        return mk("record", cname, tuple((a, self._freeze(v, seen + (o,))) for a, v in at
                                         if a not in ("name", "units")))

    # ------------------------------------------------------------ joins
    def join(self, c, a, b):
        """state: a when c else b"""
        if a is None:
            return b
        if b is None:
            return a
        h = {}
        ah, bh = a.h, b.h
        lone = []
        for k, v in ah.items():
            w = bh.get(k)
            if w is None:
                h[k] = v if k[0] == "c" else self.gate(c, v, self.absent(k))
                if k[0] in "ap":
                    lone.append((k, bh))
            elif v is w:
                h[k] = v
            else:
                h[k] = self.gate(c, v, w)
        for k, w in bh.items():
            if k not in ah:
                h[k] = w if k[0] == "c" else self.gate(c, self.absent(k), w)
                if k[0] in "ap":
                    lone.append((k, ah))
        if lone:
            objs = {}
            for k, other in lone:
                _, oid, name = k
                if id(other) not in objs:
                    objs[id(other)] = {q[1] for q in other if q[0] == "a"}
                if oid in objs[id(other)]:
                    h[("p", oid, name)] = ite(c, self.present(ah, oid, name), self.present(bh, oid, name))
        return St(h, a.pc if a.pc is b.pc else self.pcor(a.pc, b.pc, c))

    @staticmethod
    def present(h, oid, name):
        """whether the object has the attribute in this state"""
        p = h.get(("p", oid, name))
        if p is not None:
            return p
        return TRUE if ("a", oid, name) in h else FALSE

    def absent(self, k):
        """what a location holds before anything is stored there"""
        if k[0] == "F":
            return sym("F." + k[1], "map")
        if k == ("e", "log"):
            return lst()
        if k[0] == "p":
            return FALSE
        if k[0] == "a":
            cls = self.objcls.get(k[1])
            if isinstance(cls, Class):
                m, owner = cls.find(k[2])
                if m is not None and m[0] == "const":
                    return self.classconst(owner, k[2], m)
        return UNBOUND

    def gate(self, c, v, w):
        if v is UNBOUND or w is UNBOUND:
            return ite(c, v, w)
        return self.lib.simplify_gate(self, c, v, w)

    def pcor(self, p, q, c):
        P = p.args if p.op == "and" else (p,)
        Q = q.args if q.op == "and" else (q,)
        common = [x for x in P if x in Q]
        rp = [x for x in P if x not in common and x is not c]
        rq = [x for x in Q if x not in common and x is not not_(c)]
        # p = common & c & rp ; q = common & !c & rq
        if c in P and not_(c) in Q:
            if not rp and not rq:
                return and_(*common)
            return and_(*common, or_(and_(c, *rp), and_(not_(c), *rq)))
        return and_(*common, or_(and_(*[x for x in P if x not in common]), and_(*[x for x in Q if x not in common])))

    def relpc(self, pc, base):
        P = pc.args if pc.op == "and" else (pc,)
        B = base.args if base.op == "and" else (base,)
        return and_(*[x for x in P if x not in B])

    def merge_exits(self, exits, base):
        """[(pc, st, val)] mutually exclusive -> (st, val)"""
        pc, st, val = exits[-1]
        st = st.copy()
        for p, s, v in reversed(exits[:-1]):
            c = self.relpc(p, base)
            nst = self.join(c, s, st)
            nst.pc = or_(s.pc, st.pc) if True else None
            val = self.gate(c, v, val)
            st = nst
        return st, val

    # ------------------------------------------------------------ raising
    def raise_(self, cls, cond=None, info=None):
        """record an exceptional exit; with cond, execution continues under not cond"""
        st = self.st.copy()
        if cond is None:
            self.exits.append((st.pc, st, cls, info))
            raise Dead()
        if cond is FALSE:
            return
        st.pc = and_(st.pc, cond)
        if st.pc is FALSE:
            return
        self.exits.append((st.pc, st, cls, info))
        self.st.pc = and_(self.st.pc, not_(cond))
        if self.st.pc is FALSE:
            raise Dead()

    def handled(self, cls):
        return any(exc_isa(cls, h) for hs in self.trystack for h in hs)

    def may_raise(self, cls, site):
        """library call that can raise cls: modelled where a handler could see it"""
        for hs in self.trystack:
            if any(exc_isa(cls, h) for h in hs):
                self.raise_(cls, mk("exc", cls, self.freeze(site)))
                return

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            v = self.st.h.get(("v", f.fid, name))
            if v is not None:
                return v
            f = f.parent
        if name not in fr.module.defs and not self.lib.is_builtin(name):
            # read in a later round of a loop than the one that binds it
            for entry, fid in reversed(self.loopentry):
                k = ("v", fid, name)
                if fid == fr.fid and k not in entry.h:
                    entry.h[k] = mk("unbound")
                    raise Rebind()
        return self.module_attr(fr.module, name)

    def module_attr(self, mod, name):
        key = (mod.name, name)
        if key in self.modcache:
            return self.modcache[key]
        d = mod.defs.get(name)
        v = None
        if d is None and name == "__file__":
            return const("/@repo/" + mod.name.replace(".", "/") + ("/__init__.py" if mod.is_pkg else ".py"))
        if d is None:
            sub = self.prog.module(mod.name + "." + name) if mod.is_pkg else None
            if sub is not None:
                v = mk("mod", sub.name)
            elif self.lib.is_builtin(name):
                v = mk("ext", "builtins." + name)
            else:
                v = mk("ext", "?." + name)
                self.unknown.add(f"unresolved name {name} in {mod.name}")
                return v
        elif isinstance(d, ast.FunctionDef):
            v = self.mkfunc(d, mod, None, None, name)
        elif isinstance(d, ast.ClassDef):
            v = mk("cls", self.getclass(d, mod))
        elif d[0] == "import":
            v = self.resolve_module(d[1])
        elif d[0] == "from":
            v = self.resolve_from(mod, d)
        elif d[0] == "script":
            if (mod.name, None) in self.in_progress:
                return top("recursive module constant")
            self.in_progress.add((mod.name, None))
            save = (self.st, self.fr, self.exits)
            self.st = St(dict(self.st.h), TRUE)
            self.exits = []
            fr = Frame(self.uid(), None, mod, None, 0)
            n0 = self.n
            try:
                self.fr = fr
                self.block(mod.script, fr)
                for k, w in self.st.h.items():
                    if k[0] == "c" and k[1] > n0:
                        self.globcells[k[1]] = w
                    elif k[0] == "a" and k[1] > n0:
                        save[0].h[k] = w
                    elif k[0] == "v" and k[1] == fr.fid:
                        self.modcache[(mod.name, k[2])] = w
            except Dead:
                pass
            finally:
                self.st, self.fr, self.exits = save
                self.in_progress.discard((mod.name, None))
            v = self.modcache.get(key)
            if v is None:
                v = top("module constant raises")
        elif d[0] == "assign":
            if key in self.in_progress:
                return top("recursive module constant")
            self.in_progress.add(key)
            save = (self.st, self.fr, self.exits)
            # module constants are evaluated once, in an empty state
            self.st = St(dict(self.st.h), TRUE)
            fr = Frame(self.uid(), None, mod, None, 0)
            n0 = self.n
            try:
                self.fr = fr
                v = self.ev(d[1], fr)
                for k, w in self.st.h.items():
                    if k[0] == "c" and k[1] > n0:
                        self.globcells[k[1]] = w
                    elif k[0] == "a" and k[1] > n0:
                        save[0].h[k] = w
            except Dead:
                v = top("module constant raises")
            finally:
                self.st, self.fr, self.exits = save
                self.in_progress.discard(key)
            if v.op == "ref" or v.op == "obj":
                pass
        self.modcache[key] = v
        return v

    def resolve_module(self, dotted):
        m = self.prog.module(dotted)
        if m is not None:
            return mk("mod", dotted)
        return mk("ext", self.lib.canon_name(dotted))

    def resolve_from(self, mod, d):
        _, module, level, name = d
        if level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (level - 1)] if level > 1 else parts
            base = ".".join(parts + ([module] if module else []))
        else:
            base = module
        m = self.prog.module(base)
        if m is not None:
            sub = self.prog.module(base + "." + name)
            if name in m.defs:
                return self.module_attr(m, name)
            if sub is not None:
                return mk("mod", sub.name)
            return self.module_attr(m, name)
        full = base + "." + name
        mm = self.lib.model_for(full)
        if mm is not None:
            return self.module_attr(self.prog.module(mm[0]), mm[1])
        return mk("ext", self.lib.canon_name(full))

    def mkfunc(self, node, module, closure, cls, qual):
        key = (id(node), closure)
        if key not in self.funckey:
            fid = self.uid()
            self.funckey[key] = fid
            self.funcs[fid] = Func(node, module, closure, cls, qual)
        return mk("func", self.funckey[key])

    def getclass(self, node, mod):
        cid = f"{mod.name}.{node.name}"
        if cid in self.classes:
            return cid
        c = Class(node.name, mod, node)
        self.classes[cid] = c
        fr = Frame(self.uid(), None, mod, None, 0)
        for b in node.bases:
            v = self.ev(b, fr)
            if v.op == "cls":
                c.bases.append(self.classes[v.args[0]])
            elif v.op == "ext":
                mm = self.lib.model_for(v.args[0])
                if mm is not None:
                    v = self.module_attr(self.prog.module(mm[0]), mm[1])
                    c.bases.append(self.classes[v.args[0]])
                else:
                    c.bases.append(v.args[0])
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                decs = []
                for dn in n.decorator_list:
                    decs.append(ast.unparse(dn))
                f = self.mkfunc(n, mod, None, cid, f"{node.name}.{n.name}")
                if "property" in decs:
                    c.members[n.name] = ["prop", f, None]
                elif any(d.endswith("cached_property") for d in decs):
                    a = "_cached " + n.name
                    c.members["_compute " + n.name] = ["meth", f, []]
                    g = ast.parse("def f(self):\n if not hasattr(self, 'A'):\n  setattr(self, 'A', getattr(self, 'B')())\n return getattr(self, 'A')"
                                  .replace("'A'", repr(a)).replace("'B'", repr("_compute " + n.name))).body[0]
                    for y in ast.walk(g):
                        if hasattr(y, "lineno"):
                            y.lineno = y.end_lineno = n.lineno
                    c.members[n.name] = ["prop", self.mkfunc(g, mod, None, cid, f"{node.name}.{n.name}"), None]
                elif any(d.endswith(".setter") for d in decs):
                    p = c.members.get(n.name)
                    if p is None or p[0] != "prop":
                        q, _ = c.find(n.name)
                        p = ["prop", q[1] if q else None, None]
                    c.members[n.name] = ["prop", p[1], f]
                elif "staticmethod" in decs:
                    c.members[n.name] = ["static", f]
                elif "classmethod" in decs:
                    c.members[n.name] = ["classm", f]
                else:
                    c.members[n.name] = ["meth", f, decs]
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = ["const", n.value]
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                c.members[n.target.id] = ["const", n.value]
        return cid

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, fr, default=None):
        if o.op == "ite":
            if self.hasobj(o):
                return self.branch(o.args[0], lambda: self.getattr_(o.args[1], name, fr, default),
                                   lambda: self.getattr_(o.args[2], name, fr, default))
            a = self.getattr_(o.args[1], name, fr, default)
            b = self.getattr_(o.args[2], name, fr, default)
            return self.gate(o.args[0], a, b)
        if o.op == "unbound":
            return o
        if o.op == "mod":
            return self.module_attr(self.prog.module(o.args[0]), name)
        if o.op == "ext":
            return self.lib.ext_attr(self, o, name)
        if o.op == "cls":
            c = self.classes[o.args[0]]
            m, owner = c.find(name)
            if m is not None:
                if m[0] in ("meth", "static"):
                    return m[1]
                if m[0] == "classm":
                    return mk("bound", m[1], o)
                if m[0] == "const":
                    return self.classconst(owner, name, m)
                return m[1]
            if name == "__name__":
                return const(c.name)
            if default is not None:
                return default
            return mk("ext", f"{'|'.join(map(str, c.ext_bases()))}.{name}")
        if o.op == "super":
            slf, owner = o.args
            cls = self.objcls[slf.args[0]] if slf.op == "obj" else self.classes[slf.args[0]]
            mro = cls.mro()
            k = [x.name + x.module.name for x in mro].index(self.classes[owner].name + self.classes[owner].module.name)
            for c in mro[k + 1:]:
                if name in c.members:
                    m = c.members[name]
                    if m[0] in ("meth", "classm"):
                        return mk("bound", m[1], slf)
                    if m[0] == "static":
                        return m[1]
                    if m[0] == "prop":
                        return self.call_func(m[1], [slf], {})
                    return self.classconst(c, name, m)
            return mk("bound", mk("ext", f"object.{name}"), slf)
        if o.op == "obj":
            oid = o.args[0]
            cls = self.objcls[oid]
            if isinstance(cls, Class):
                m, owner = cls.find(name)
                if m is not None and m[0] == "prop":
                    if m[1] is None:
                        return top("write-only property")
                    return self.call_func(m[1], [o], {})
                v = self.st.h.get(("a", oid, name))
                p = self.st.h.get(("p", oid, name), TRUE)
                if v is not None and p is not TRUE and m is None:
                    if p is FALSE:
                        v = None
                    else:
                        def lost():
                            if default is not None:
                                return default
                            self.raise_("AttributeError", None, name)
                        return self.branch(p, lambda: self.under(v, p), lost)
                if v is not None:
                    return v
                if m is not None:
                    if m[0] == "static":
                        return m[1]
                    if m[0] == "classm":
                        return mk("bound", m[1], mk("cls", f"{cls.module.name}.{cls.name}"))
                    if m[0] == "const":
                        return self.classconst(owner, name, m)
                    return mk("bound", m[1], o)
                if name == "__class__":
                    return mk("cls", f"{cls.module.name}.{cls.name}")
                if name == "__dict__":
                    return mk("dict", *[(const(k[2]), v) for k, v in self.st.h.items() if k[0] == "a" and k[1] == oid])
                if default is not None:
                    return default
                g, _ = cls.find("__getattr__")
                if g is not None:
                    return self.call_func(g[1], [o, const(name)], {})
                self.raise_("AttributeError", None, name)
            v = self.st.h.get(("a", oid, name))
            if v is not None:
                return v
            return self.lib.native_attr(self, o, cls, name, default)
        if o.op == "ref":
            return self.lib.ref_attr(self, o, name)
        return self.lib.term_attr(self, o, name, default)

    def classconst(self, owner, name, m):
        key = (owner.module.name, owner.name, name)
        if key not in self.modcache:
            fr = Frame(self.uid(), None, owner.module, None, 0)
            save = self.st
            self.st = St(self.st.h, TRUE)
            try:
                self.modcache[key] = self.ev(m[1], fr)
            finally:
                self.st = save
        return self.modcache[key]

    @staticmethod
    def under(v, c):
        """v where c is known to hold"""
        while v.op == "ite":
            if v.args[0] is c:
                v = v.args[1]
            elif v.args[0] is not_(c):
                v = v.args[2]
            else:
                break
        return v

    def hasattr_(self, o, name):
        if o.op == "obj":
            cls = self.objcls[o.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find(name)
                return TRUE if m is not None else self.present(self.st.h, o.args[0], name)
            if ("a", o.args[0], name) in self.st.h:
                return TRUE
            return self.lib.native_hasattr(self, o, cls, name)
        if o.op == "ite":
            return ite(o.args[0], self.hasattr_(o.args[1], name), self.hasattr_(o.args[2], name))
        if o.op in ("const",) or o.op == "ref":
            return self.lib.static_hasattr(self, o, name)
        if o.op in ("list", "map", "concat"):
            return const(hasattr(tuple, name))
        k = self.lib.symkind(o)
        if k is not None and k in norm.KIND_RANK or k in ("str", "dict", "list", "path"):
            return self.lib.static_hasattr(self, o, name)
        if k == "handle":
            return TRUE if name in ("read", "write", "readline", "readlines") else FALSE
        return mk("hasattr", self.freeze(o), name)

    def setattr_(self, o, name, v):
        if o.op == "ite":
            c = o.args[0]
            s0 = self.st
            a, b = s0.copy(), s0.copy()
            self.st = a
            self.setattr_(o.args[1], name, v)
            a = self.st
            self.st = b
            self.setattr_(o.args[2], name, v)
            b = self.st
            pc = s0.pc
            self.st = self.join(c, a, b)
            self.st.pc = pc
            return
        if o.op == "obj":
            cls = self.objcls[o.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find(name)
                if m is not None and m[0] == "prop":
                    if m[2] is None:
                        self.raise_("AttributeError", None, name)
                    self.call_func(m[2], [o, v], {})
                    return
                sa, _ = cls.find("__setattr__")
                if sa is not None:
                    self.call_func(sa[1], [o, const(name), v], {})
                    return
            self.st.h[("a", o.args[0], name)] = v
            if ("p", o.args[0], name) in self.st.h:
                self.st.h[("p", o.args[0], name)] = TRUE
            return
        if o.op == "ref":
            self.lib.ref_setattr(self, o, name, v)
            return
        if o.op in ("mod", "cls", "ext", "func"):
            self.st.h[("g", o, name)] = v
            return
        # object known only symbolically: one map per attribute
        if any(x.op == "record" for x in subterms(o)):
            raise Unsupported("update of an object made by a loop")
        key = ("F", name)
        m = self.st.h.get(key) or sym("F." + name, "map")
        self.st.h[key] = setitem(m, self.freeze(o), v)

    def field(self, o, name):
        key = ("F", name)
        m = self.st.h.get(key) or sym("F." + name, "map")
        return getitem(m, self.freeze(o))

    # ------------------------------------------------------------ calls
    TUPLES = {"nonzero", "broadcast_arrays", "meshgrid", "histogram", "shape", "divmod", "modf", "split", "array_split",
              "atleast_1d_many", "ix_", "unravel_index", "minimize", "least_squares", "unzip", "lstsq", "eigh", "svd", "qr"}

    def call(self, f, pos, kw, node=None, fr=None):
        self.sites += 1
        if f.op == "ite":
            return self.branch(f.args[0], lambda: self.call(f.args[1], pos, kw, node, fr),
                               lambda: self.call(f.args[2], pos, kw, node, fr))
        if f.op == "func":
            return self.call_func(f, pos, kw)
        if f.op == "bound":
            if f.args[0].op == "ext":
                return self.lib.call_ext(self, f.args[0].args[0], [f.args[1]] + pos, kw, node)
            return self.call_func(f.args[0], [f.args[1]] + pos, kw)
        if f.op == "native":
            r = self.lib.call_native(self, f, pos, kw, node)
            if f.args[1].op == "ref" and self.kind(f.args[1]) == "array" and f.args[2] not in ("nonzero",):
                r = self.arrbox(r)
            return r
        if f.op == "cls":
            return self.construct(f, pos, kw)
        if f.op == "ext":
            r = self.lib.call_ext(self, f.args[0], pos, kw, node)
            nm = f.args[0]
            if nm.startswith(("numpy.", "scipy.")) and nm.split(".")[-1] not in self.TUPLES and not (
                    nm.endswith(("where", "unique")) and (len(pos) == 1 and (kw or nm.endswith("where")))):
                r = self.arrbox(r)
            return r
        if f.op == "partial":
            fn, pp, pk = f.args
            k = dict(pk)
            if fn.op == "func":
                a = self.funcs[fn.args[0]].node.args
                for x in (a.posonlyargs + a.args)[:len(pp) + len(pos)]:
                    k.pop(x.arg, None)
            k.update(kw)
            return self.call(fn, list(pp) + pos, k, node, fr)
        if f.op == "obj":
            cls = self.objcls[f.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__call__")
                if m is not None:
                    return self.call_func(m[1], [f] + pos, kw)
        if f.op == "unbound" or f.op == "top":
            return f
        return self.lib.call_opaque(self, f, pos, kw, node)

    def construct(self, c, pos, kw):
        cls = self.classes[c.args[0]]
        ext = cls.ext_bases()
        if any(str(e).split(".")[-1] in EXC_PARENTS for e in ext):
            return mk("app", "exception:" + cls.name, (), ())
        o = self.newobj(cls)
        m, owner = cls.find("__init__")
        if m is not None:
            self.call_func(m[1], [o] + pos, kw)
        elif any(str(dn).endswith("NamedTuple") for dn in ext) or any(
                ast.unparse(dn).split("(")[0].endswith("dataclass") for dn in cls.node.decorator_list):
            names = [n.target.id for n in cls.node.body if isinstance(n, ast.AnnAssign)]
            for n, v in zip(names, pos):
                self.st.h[("a", o.args[0], n)] = v
            for n, v in kw.items():
                self.st.h[("a", o.args[0], n)] = v
        return o

    def bind(self, f, pos, kw, fr):
        """arguments to parameters; returns {name: value}"""
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        extra = []
        for i, v in enumerate(pos):
            if v.op == "star" and (i < len(names) or not a.vararg):
                raise Unsupported("arguments from a sequence of unknown length")
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        kwrest = []
        dyn = None
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k is None:
                dyn = v
            elif k in names or k in konly:
                env[k] = v
            else:
                kwrest.append((const(k), v))
        defaults = a.defaults
        off = len(names) - len(defaults)
        dfr = Frame(self.uid(), None, f.module, self.frames.get(f.closure), 0)
        for i, dn in enumerate(defaults):
            n = names[off + i]
            if n not in env:
                if dyn is not None:
                    env[n] = ite(mk("in", const(n), self.freeze(dyn)), getitem(dyn, const(n)), self.default(f, n, dn, dfr))
                else:
                    env[n] = self.default(f, n, dn, dfr)
        for x, dn in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dn is not None:
                env[x.arg] = self.default(f, x.arg, dn, dfr)
        for n in names + konly:
            if n not in env:
                self.raise_("TypeError", None, f"missing argument {n}")
        if a.vararg:
            if any(v.op == "star" for v in extra):
                ev = lst()
                for v in extra:
                    ev = concat(ev, v.args[0] if v.op == "star" else lst(v))
                env[a.vararg.arg] = ev
            else:
                env[a.vararg.arg] = lst(*extra)
        elif extra:
            self.raise_("TypeError", None, "too many arguments")
        if a.kwarg:
            if dyn is not None:
                base = self.d(dyn)
                v = base if not kwrest else mk("dictmerge", base, mk("dict", *kwrest))
                env[a.kwarg.arg] = self.alloc(v, "dict")
            else:
                env[a.kwarg.arg] = self.alloc(mk("dict", *kwrest), "dict")
        elif kwrest:
            self.raise_("TypeError", None, "unexpected keyword " + str(cval(kwrest[0][0])))
        return env

    def default(self, f, name, node, dfr):
        # default values are evaluated once, at definition: one shared object
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.Call)):
            key = ("default", id(node))
            if key not in self.modcache:
                self.modcache[key] = self.ev(node, dfr)
                v = self.modcache[key]
                if v.op == "ref":
                    self.cellinit = getattr(self, "cellinit", {})
                    self.cellinit[v.args[0]] = (self.st.h[("c", v.args[0])], f.qual, name)
            v = self.modcache[key]
            if v.op == "ref" and ("c", v.args[0]) not in self.st.h:
                self.st.h[("c", v.args[0])] = self.cellinit[v.args[0]][0]
            return v
        return self.ev(node, dfr)

    def call_func(self, fv, pos, kw):
        if fv.op == "func":
            f = self.funcs[fv.args[0]]
            decs = getattr(f.node, "decorator_list", ())
            if decs and fv.args[0] not in self.memoing:
                names = [ast.unparse(d) for d in decs]
                wrap = []
                for d, dn in zip(names, decs):
                    if not is_memo(d) and not d.endswith(KNOWN_DECORATORS) and "wraps" not in d:
                        w = self.wrapper(f, dn)
                        if w is None:
                            self.unknown.add("decorator " + d)
                        else:
                            wrap.append(w)
                if wrap and not any(is_memo(d) for d in names):
                    self.memoing.add(fv.args[0])
                    try:
                        g = fv
                        for w in reversed(wrap):
                            g = self.call(w, [g], {}, None, self.fr)
                        return self.call(g, pos, kw, None, self.fr)
                    finally:
                        self.memoing.discard(fv.args[0])
                if any(is_memo(d) for d in names):
                    return self.call_memo(fv, f, pos, kw)
        return self.call_plain(fv, pos, kw)

    def wrapper(self, f, dn):
        """a decorator of the repository that only defines and returns a wrapper (keeps no state of its own)"""
        w = self.ev(dn, Frame(self.uid(), None, f.module, self.frames.get(f.closure), 0))
        if w.op != "func":
            return None
        body = getattr(self.funcs[w.args[0]].node, "body", None)
        if not isinstance(body, list) or getattr(self.funcs[w.args[0]].node, "decorator_list", None):
            return None
        for b in body:
            if not (isinstance(b, (ast.FunctionDef, ast.Return)) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
                return None
            if isinstance(b, ast.Return) and not isinstance(b.value, (ast.Name, ast.Lambda)):
                return None
            if isinstance(b, ast.FunctionDef) and (b.args.defaults or b.args.kw_defaults or any(
                    isinstance(q, (ast.Nonlocal, ast.Global)) for q in ast.walk(b))):
                return None
        return w

    def call_memo(self, fv, f, pos, kw):
        """functools.cache / lru_cache: the first result for equal arguments is kept"""
        args = tuple(pos) + tuple(x for k in sorted(kw, key=str) for x in (const(str(k)), kw[k]))
        hit = None
        for a, v, pc in self.memos.get(fv.args[0], ()):
            if len(a) == len(args) and all(x is y for x, y in zip(a, args)) and (pc is TRUE or pc is self.st.pc):
                hit = v
        if hit is not None:
            return hit
        self.memoing.add(fv.args[0])
        try:
            v = self.call_plain(fv, pos, kw)
        finally:
            self.memoing.discard(fv.args[0])
        if not (self.isref(v) or v.op == "obj") and not any(y.op == "obj" or self.isref(y) for y in args) and not any(
                x.op in ("mu", "top", "ref", "obj") or x.op == "sym" and str(x.args[0]).startswith("F.") for x in subterms(v)):
            return v                       # depends on the arguments only: keeping it cannot be observed
        for a, w, pc in self.memos.get(fv.args[0], ()):
            if len(a) != len(args) or not any(norm.disjoint(x, y) or x.op == y.op == "obj" and x is not y for x, y in zip(a, args)):
                self.unknown.add("decorator cache")
        if any(self.isref(y) for y in args) or any(x.op == "mu" for y in args for x in subterms(y)) or self.loops:
            self.unknown.add("decorator cache")
        self.memos.setdefault(fv.args[0], []).append((args, v, self.st.pc))
        return v

    def call_plain(self, fv, pos, kw):
        if fv.op == "ext":
            return self.lib.call_ext(self, fv.args[0], pos, kw, None)
        if fv.op == "bound":
            return self.call(fv, pos, kw)
        f = self.funcs[fv.args[0]]
        h = self.opaque.get(f.module.name + "." + f.qual)
        if h is not None:
            return h(self, f, pos, kw)
        hm = self.lib.func_model(f)
        if hm is not None:
            return hm(self, f, pos, kw)
        depth = (self.fr.depth if self.fr else 0) + 1
        self.visited.add(f.module.name + "." + f.qual)
        stack = [x for x in self.callstack() if x == id(f.node)]
        if depth > MAXDEPTH or len(stack) > 3:
            self.unknown.add("recursion " + f.qual)
            return mk("app", "?rec:" + f.qual, tuple(self.freeze(p) for p in pos), tuple(sorted((str(k), self.freeze(v)) for k, v in kw.items())))
        if isinstance(f.node, ast.Lambda):
            env = self.bind(f, pos, kw, None)
            fr = Frame(self.uid(), f, f.module, self.frames.get(f.closure), depth)
            self.frames[fr.fid] = fr
            for k, v in env.items():
                self.st.h[("v", fr.fid, k)] = v
            save = self.fr
            fr_prev = self.fr
            self.fr = fr
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.fr = save
        env = self.bind(f, pos, kw, None)
        fr = Frame(self.uid(), f, f.module, self.frames.get(f.closure), depth)
        self.frames[fr.fid] = fr
        for k, v in env.items():
            self.st.h[("v", fr.fid, k)] = v
        isgen = self.is_generator(f.node)
        if isgen:
            fr.yields = self.alloc(lst(), "list")
        base = self.st.pc
        save, saveloops = self.fr, self.loops
        self.fr, self.loops = fr, []
        stk = self._stack
        self._stack = stk + (id(f.node),)
        try:
            try:
                self.block(f.node.body, fr)
                fr.rets.append((self.st.pc, self.st, NONE))
            except Dead:
                pass
        finally:
            self.fr, self.loops = save, saveloops
            self._stack = stk
        if not fr.rets:
            raise Dead()
        if len(fr.rets) == 1:
            self.st, val = fr.rets[0][1].copy(), fr.rets[0][2]
        else:
            self.st, val = self.merge_exits(fr.rets, base)
            # if nothing raised, the exits cover the whole entry condition
            self.st.pc = self.cover([r[0] for r in fr.rets], base)
        # locals die
        for k in [k for k in self.st.h if k[0] == "v" and k[1] == fr.fid]:
            if not self.captured(fr):
                del self.st.h[k]
        if isgen:
            return self.d(fr.yields)
        return val

    def captured(self, fr):
        return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fr.func.node) if n is not fr.func.node)

    _stack = ()

    def callstack(self):
        return self._stack

    def cover(self, pcs, base):
        """disjunction of exclusive exit conditions, simplified"""
        rel = [self.relpc(p, base) for p in pcs]
        r = self.orsimp(rel)
        return and_(base, r)

    def orsimp(self, cs):
        """or of conjunctions; cancels complementary tails (c&x | c&!x == c)"""
        sets = [frozenset(x.args) if x.op == "and" else (frozenset() if x is TRUE else frozenset([x])) for x in cs]
        changed = True
        while changed:
            changed = False
            for i in range(len(sets)):
                for j in range(len(sets)):
                    if i == j:
                        continue
                    if sets[i] <= sets[j]:
                        sets.pop(j)
                        changed = True
                        break
                    for x in sets[i]:
                        nx = not_(x)
                        if nx in sets[j] and sets[j] - {nx} >= sets[i] - {x}:
                            # (A&x) | (A&B&!x)  ==  (A&x) | (A&B)
                            new = sets[j] - {nx}
                            if new != sets[j]:
                                sets[j] = new
                                changed = True
                                break
                    if changed:
                        break
                if changed:
                    break
        if any(not s for s in sets):
            return TRUE
        out = [and_(*sorted(s, key=lambda t: t.id)) for s in sets]
        return or_(*out)

    def is_generator(self, node):
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        return False

    # ------------------------------------------------------------ branching
    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, join; returns gated value"""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        s0 = self.st
        pc0 = s0.pc
        known = self.implied(pc0, c)
        if known is True:
            return fa()
        if known is False:
            return fb()
        ne = len(self.exits)
        a = s0.copy()
        a.pc = and_(pc0, c)
        self.st = a
        try:
            va = fa()
            A = self.st
        except Dead:
            A = None
        b = s0.copy()
        b.pc = and_(pc0, not_(c))
        self.st = b
        try:
            vb = fb()
            B = self.st
        except Dead:
            B = None
        if A is None and B is None:
            self.st = s0
            raise Dead()
        if A is None:
            self.st = B
            return vb
        if B is None:
            self.st = A
            return va
        self.st = self.join(c, A, B)
        if va is None or vb is None:
            return va if va is vb else None
        return self.gate(c, va, vb)

    def refine(self, v):
        """drop the alternatives the current path excludes"""
        while v.op == "ite":
            k = self.implied(self.st.pc, v.args[0])
            if k is None:
                break
            v = v.args[1] if k else v.args[2]
        return v

    def implied(self, pc, c):
        P = pc.args if pc.op == "and" else (pc,)
        if c in P:
            return True
        if not_(c) in P:
            return False
        if c.op == "and":
            if all(x in P for x in c.args):
                return True
            if any(not_(x) in P for x in c.args):
                return False
        if c.op == "not" and c.args[0].op == "and":
            r = self.implied(pc, c.args[0])
            if r is not None:
                return not r
        return self.interval(P, c)

    def interval(self, P, c):
        """decide a comparison with a constant from the comparisons on the path"""
        q = bound_of(c)
        if q is None:
            return None
        t, op, k = q
        lo = hi = None          # (value, strict)
        ne = set()
        for p in P:
            b = bound_of(p)
            if b is None or b[0] is not t:
                continue
            _, o, v = b
            if o == "eq":
                lo = hi = (v, False)
            elif o == "ne":
                ne.add(v)
            elif o in ("<", "<="):
                if hi is None or (v, o == "<=") < (hi[0], not hi[1]):
                    hi = (v, o == "<")
            else:
                if lo is None or (v, o == ">") > (lo[0], lo[1]):
                    lo = (v, o == ">")
        below = hi is not None and (hi[0] < k or (hi[0] == k and hi[1]))      # t < k
        above = lo is not None and (lo[0] > k or (lo[0] == k and lo[1]))      # t > k
        le = hi is not None and hi[0] <= k
        ge = lo is not None and lo[0] >= k
        if op == "<":
            return True if below else (False if ge else None)
        if op == "<=":
            return True if le else (False if above else None)
        if op == ">":
            return True if above else (False if le else None)
        if op == ">=":
            return True if ge else (False if below else None)
        if below or above or k in ne:
            return op == "ne"
        if le and ge and lo is not None and lo[0] == hi[0] == k:
            return op == "eq"
        return None

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = v if v.op in ("obj",) else (self.d(v) if self.isref(v) else v)
        return self._truth(v)

    def _truth(self, v):
        if is_const(v):
            x = v.args[0]
            if x is None or isinstance(x, (bool, str, bytes)):
                return const(bool(x))
            if isinstance(x, Fraction):
                return const(x != 0)
            return TRUE
        if v.op == "ite":
            return ite(v.args[0], self._truth(v.args[1]), self._truth(v.args[2]))
        if v.op in ("lt", "le", "eq", "is", "in", "not", "and", "truthy", "isinstance", "hasattr", "exc", "exists"):
            return v
        if v.op in ("list", "dict"):
            return const(bool(v.args))
        if v.op in ("func", "cls", "ext", "mod", "bound", "record"):
            return TRUE
        if v.op == "obj":
            cls = self.objcls[v.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__bool__")
                if m:
                    return self.truth(self.call_func(m[1], [v], {}))
                m, _ = cls.find("__len__")
                if m:
                    return self._truth(self.call_func(m[1], [v], {}))
            return TRUE
        if v.op == "map" or v.op == "concat":
            return not_(mk("eq", arr_len(v), ZERO))
        if v.op == "app" and v.args[0] == "len":
            return not_(mk("eq", v, ZERO))
        if v.op == "app" and v.args[0] in BOOL_APPS:
            return v
        if v.op == "sym" and v.args[1] in ("posreal", "posint"):
            return TRUE
        return mk("truthy", v)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too many abstract steps")
        fr.line = s.lineno
        mp = fr.module.path
        if fr.module.name == "spec_mod":
            CUR[0] = None
        elif fr.module.name not in self.prog.models:
            CUR[0] = (mp, fr.func.qual if fr.func else "<module>", s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        r = self.ev(s.value, fr)
        if r.op == "app" and str(r.args[0]).startswith("?numpy.") and r.args[1]:
            raise Unsupported("result of " + str(r.args[0])[1:] + " discarded")

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.st.h[("v", fr.fid, nm)] = self.resolve_module(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            self.st.h[("v", fr.fid, a.asname or a.name)] = self.resolve_from(fr.module, ("from", s.module or "", s.level, a.name))

    def s_Global(self, s, fr):
        fr.globals_ |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr.module, fr.fid, fr.func.cls if fr.func else None,
                        (fr.func.qual + "." if fr.func else "") + s.name)
        self.st.h[("v", fr.fid, s.name)] = self.early(f, s, fr)

    def s_ClassDef(self, s, fr):
        self.st.h[("v", fr.fid, s.name)] = mk("cls", self.getclass(s, fr.module))

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        fr.rets.append((self.st.pc, self.st, v))
        self.st = self.st.copy()
        raise Dead()

    def s_Assign(self, s, fr):
        v = self.box(self.once(s.value, self.ev(s.value, fr)))
        for t in s.targets:
            self.assign(t, v, fr)

    def once(self, node, v):
        """an iterator kept under a name: reading it empties it"""
        if isinstance(node, ast.GeneratorExp):
            it = True
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
                "iter", "zip", "map", "filter", "enumerate", "reversed"):
            it = not any(node.func.id in m.defs for m in [self.fr.module]) if self.fr is not None else True
        else:
            return v
        if not it or self.isref(v) or v.op in ("obj", "ite", "app", "unbound", "top"):
            return v
        return self.alloc(v, "iter")

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.box(self.ev(s.value, fr)), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.globals_:
                self.modcache[(fr.module.name, t.id)] = v
                self.st.h[("g", mk("mod", fr.module.name), t.id)] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and ("v", f.fid, t.id) not in self.st.h:
                    f = f.parent
                f = f or fr
            self.st.h[("v", f.fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def bindelem(self, t, v, fr):
        """the target of a loop: what it names stays part of the container"""
        save, self.binding = self.binding, True
        self.elemnames |= {(fr.fid, q.id) for q in ast.walk(t) if isinstance(q, ast.Name)}
        try:
            self.assign(t, v, fr)
        finally:
            self.binding = save

    def unpack(self, elts, v, fr):
        if v.op == "ite" and not self.isref(v):
            pass
        x = v
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if x.op == "obj":
            x = self.iter_term(x)
        elif self.isref(x):
            k = self.kind(x)
            if k == "array":
                for i, e in enumerate(elts):
                    y = self.lib.subscript(self, x, num(i))
                    self.assign(e, y if self.isref(y) else self.box(self.arrbox(y)), fr)
                return
            x = self.d(x)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            for j in range(i):
                self.assign(elts[j], getitem(x, num(j)), fr)
            self.assign(elts[i].value, self.alloc(getitem(x, mk("slice", num(i) if i else NONE, num(-after) if after else NONE, NONE)), "list"), fr)
            for j in range(after):
                self.assign(elts[i + 1 + j], getitem(x, num(j - after)), fr)
            return
        for i, e in enumerate(elts):
            self.assign(e, self.box(getitem(x, num(i))), fr)

    def index(self, n, fr):
        if isinstance(n, ast.Slice):
            return mk("slice", *[self.scalar(self.ev(p, fr)) if p is not None else NONE for p in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return mk("idxt", *[self.index(e, fr) for e in n.elts])
        v = self.ev(n, fr)
        if v.op == "list" and v.args:
            # a tuple value: one entry per axis (list objects are references)
            return mk("idxt", *[self.scalar(x) for x in v.args])
        v = self.d(v) if self.isref(v) else v
        if v.op == "slice" or v.op == "idxt":
            return v
        if v.op == "obj":
            return self.freeze_key(v)
        return v

    def freeze_key(self, v):
        return v

    def scalar(self, v):
        return self.d(v) if self.isref(v) else v

    def store_sub(self, t, v, fr):
        if isinstance(t.value, ast.Attribute) and t.value.attr == "__dict__":
            o = self.ev(t.value.value, fr)
            i = self.index(t.slice, fr)
            if o.op == "obj" and is_str(i):
                self.setattr_(o, cval(i), v)
                return
        o = self.ev(t.value, fr)
        i = self.index(t.slice, fr)
        self.store(o, i, v, t.value, fr)

    def store(self, o, i, v, onode=None, fr=None):
        if o.op == "obj":
            cls = self.objcls[o.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__setitem__")
                if m:
                    self.call_func(m[1], [o, i, v], {})
                    return
            self.lib.native_setitem(self, o, cls, i, v)
            return
        if o.op == "native" and o.args[0] == "loc":
            self.lib.loc_store(self, o, i, self.d(v) if self.isref(v) else v)
            return
        if self.isref(o):
            k = self.kind(o)
            val = v if k in ("list", "dict") else (self.d(v) if self.isref(v) else v)
            if k == "array":
                val = self.lib.numval(self, val)
            self.put(o, setitem(self.d(o), norm.canon_idx(i), val))
            return
        if o.op in ("unbound", "top"):
            return
        if isinstance(onode, ast.Name) and (anydict(o) or o.op in ("getitem", "loopval") and rank(o) is None):
            raise Unsupported("update of a dictionary that a list may share")
        if isinstance(onode, ast.Name) and o.op in ("list", "concat", "map") and (fr.fid, onode.id) in self.elemnames:
            raise Unsupported("update of an element of a container")
        # unboxed value: write back through the expression that produced it
        val = self.d(v) if self.isref(v) else v
        new = setitem(o, i, val)
        if isinstance(onode, ast.Name):
            self.assign(onode, self.alloc(new, "array"), fr)
        elif isinstance(onode, ast.Subscript):
            self.store_sub(onode, new, fr)
        elif isinstance(onode, ast.Attribute):
            b = self.ev(onode.value, fr)
            self.setattr_(b, onode.attr, new)
        else:
            raise Unsupported("store to expression")

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
        elif isinstance(t, ast.Attribute):
            ob = self.ev(t.value, fr)
            cur = self.getattr_(ob, t.attr, fr)
        else:
            ob = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.lib.subscript(self, ob, ix)
        rhs = self.ev(s.value, fr)
        # in-place forms
        if cur.op == "obj":
            cls = self.objcls[cur.args[0]]
            name = {"BitOr": "__ior__", "Add": "__iadd__", "Mult": "__imul__", "Sub": "__isub__"}.get(op)
            if isinstance(cls, Class) and name:
                m, _ = cls.find(name)
                if m:
                    new = self.call_func(m[1], [cur, rhs], {})
                else:
                    new = self.binop(op, cur, rhs)
            else:
                new = self.binop(op, cur, rhs)
        elif self.isref(cur) and self.kind(cur) in ("array", "list") and not isinstance(t, ast.Subscript):
            if self.kind(cur) == "list" and op == "Add":
                self.put(cur, concat(self.d(cur), self.iter_term(rhs)))
            else:
                self.put(cur, self.inplace_cast(cur, self.d_num(self.binop(op, cur, rhs))))
            new = cur
        else:
            new = self.box(self.binop(op, cur, rhs)) if not isinstance(t, ast.Subscript) else self.d_num(self.binop(op, cur, rhs))
        if isinstance(t, ast.Name):
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(ob, t.attr, new)
        else:
            self.store(ob, ix, new, t.value, fr)

    def inplace_cast(self, ref, v):
        return v

    def d_num(self, v):
        return self.d(v) if self.isref(v) else v

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.index(t.slice, fr)
                if self.isref(o):
                    self.put(o, norm.delitem(self.d(o), i))
                else:
                    raise Unsupported("del of " + show(o, 3)[:200])
            elif isinstance(t, ast.Name):
                self.st.h.pop(("v", fr.fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if o.op == "obj":
                    self.st.h.pop(("a", o.args[0], t.attr), None)
                    self.st.h.pop(("p", o.args[0], t.attr), None)

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.branch(c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if c is TRUE:
            return
        k = self.implied(self.st.pc, c)
        if k is True:
            return
        if c is FALSE:
            self.raise_("AssertionError")
        self.raise_("AssertionError", not_(c))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cls = getattr(self, "curexc", None) or "Exception"
            self.raise_(cls)
        v = s.exc
        n = v.func if isinstance(v, ast.Call) else v
        cls = None
        if isinstance(v, ast.Call):
            for a in v.args:
                try:
                    pass
                except Dead:
                    raise
        val = self.ev(n, fr)
        if val.op == "ext":
            cls = val.args[0].split(".")[-1]
        elif val.op == "cls":
            c = self.classes[val.args[0]]
            cls = c.name
            for x in c.mro():
                for b in x.bases:
                    bn = b.name if isinstance(b, Class) else str(b).split(".")[-1]
                    EXC_PARENTS.setdefault(x.name, bn)
        elif val.op == "app" and str(val.args[0]).startswith("exception:"):
            cls = val.args[0].split(":", 1)[1]
        else:
            cls = "Exception"
        self.raise_(cls)

    def s_Break(self, s, fr):
        self.loops[-1][0].append((self.st.pc, self.st))
        self.st = self.st.copy()
        raise Dead()

    def s_Continue(self, s, fr):
        self.loops[-1][1].append((self.st.pc, self.st))
        self.st = self.st.copy()
        raise Dead()

    # -- with
    def s_With(self, s, fr):
        self.with_items(list(s.items), s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        rest = items[1:]
        ce = it.context_expr
        if isinstance(ce, ast.Call):
            fv = self.ev(ce.func, fr)
            if fv.op == "ext" and fv.args[0] == "contextlib.suppress" and it.optional_vars is None:
                t = getattr(it, "_vx", None)
                if t is None:
                    inner = body if not rest else [ast.With(rest, body)]
                    h = ast.ExceptHandler(ast.Tuple(list(ce.args), ast.Load()), None, [ast.Pass()])
                    t = it._vx = ast.fix_missing_locations(ast.copy_location(ast.Try(inner, [h], [], []), ce))
                self.block([t], fr)
                return
            if fv.op == "func" and any(ast.unparse(d).endswith("contextmanager") for d in self.funcs[fv.args[0]].node.decorator_list):
                f = self.funcs[fv.args[0]]
                pos, kw = self.args(ce, fr)

                def cb(val):
                    save = self.fr, self.loops, self._stack
                    self.fr, self.loops = fr, saved_loops
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, val, fr)
                        self.with_items(rest, body, fr)
                    finally:
                        self.fr, self.loops, self._stack = save

                saved_loops = self.loops
                self.run_cm(f, pos, kw, cb)
                return
        cv = self.ev(ce, fr)
        val = cv
        exit_ = None
        if cv.op == "obj":
            cls = self.objcls[cv.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__enter__")
                if m:
                    val = self.call_func(m[1], [cv], {})
                x, _ = cls.find("__exit__")
                if x:
                    exit_ = lambda: self.call_func(x[1], [cv, NONE, NONE, NONE], {})
        elif cv.op == "app" and cv.args[0] in ("ctx_raise",):
            pass
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr)
        if exit_ is None:
            self.with_items(rest, body, fr)
        else:
            self.try_finally(lambda: self.with_items(rest, body, fr), exit_, fr)

    def run_cm(self, f, pos, kw, cb):
        """generator context manager: the with body runs at the yield"""
        env = self.bind(f, pos, kw, None)
        fr = Frame(self.uid(), f, f.module, self.frames.get(f.closure), (self.fr.depth if self.fr else 0) + 1)
        self.frames[fr.fid] = fr
        for k, v in env.items():
            self.st.h[("v", fr.fid, k)] = v
        self.visited.add(f.module.name + "." + f.qual)
        save, saveloops = self.fr, self.loops
        self.fr, self.loops = fr, []
        self.yieldcb.append((fr, cb))
        base = self.st.pc
        try:
            try:
                self.block(f.node.body, fr)
                fr.rets.append((self.st.pc, self.st, NONE))
            except Dead:
                pass
        finally:
            self.yieldcb.pop()
            self.fr, self.loops = save, saveloops
        if not fr.rets:
            raise Dead()
        self.st, _ = self.merge_exits(fr.rets, base)
        if len(fr.rets) > 1:
            self.st.pc = self.cover([r[0] for r in fr.rets], base)

    # -- try
    def s_Try(self, s, fr):
        if s.finalbody:
            if s.handlers or s.orelse:
                self.try_finally(lambda: self.try_except(s, fr), lambda: self.block(s.finalbody, fr), fr)
            else:
                self.try_finally(lambda: self.block(s.body, fr), lambda: self.block(s.finalbody, fr), fr)
        else:
            self.try_except(s, fr)

    s_TryStar = s_Try

    def handler_classes(self, h, fr):
        if h.type is None:
            return ["BaseException"]
        ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in ns:
            v = self.ev(n, fr)
            if v.op == "ext":
                out.append(v.args[0].split(".")[-1])
            elif v.op == "cls":
                out.append(self.classes[v.args[0]].name)
            else:
                out.append("Exception")
        return out

    def try_except(self, s, fr):
        hcls = [self.handler_classes(h, fr) for h in s.handlers]
        saved = self.exits
        self.exits = []
        self.trystack.append([c for hs in hcls for c in hs])
        base = self.st.pc
        normal = []
        try:
            try:
                self.block(s.body, fr)
                alive = True
            except Dead:
                alive = False
        finally:
            self.trystack.pop()
            mine = self.exits
            self.exits = saved
        if alive:
            try:
                self.block(s.orelse, fr)
                normal.append((self.st.pc, self.st, NONE))
            except Dead:
                pass
        for pc, st, cls, info in mine:
            for h, hs in zip(s.handlers, hcls):
                if any(exc_isa(cls, c) for c in hs) or (cls == "AnyException"):
                    self.st = st.copy()
                    if h.name:
                        self.st.h[("v", fr.fid, h.name)] = app("caught", const(cls))
                    sv = getattr(self, "curexc", None)
                    self.curexc = cls
                    try:
                        self.block(h.body, fr)
                        normal.append((self.st.pc, self.st, NONE))
                    except Dead:
                        pass
                    finally:
                        self.curexc = sv
                    if cls == "AnyException" and not any(c in ("Exception", "BaseException") for c in hs):
                        # may or may not be the handled class
                        continue
                    break
            else:
                self.exits.append((pc, st, cls, info))
        if not normal:
            raise Dead()
        # normal flow first: the exceptional paths are the special cases
        if len(normal) == 1:
            self.st = normal[0][1]
            return
        order = normal[1:] + normal[:1] if alive else normal
        self.st, _ = self.merge_exits(order, base)
        self.st.pc = self.cover([n[0] for n in normal], base)

    def try_finally(self, body, fin, fr):
        saved = self.exits
        self.exits = []
        nr = len(fr.rets)
        nb = len(self.loops[-1][0]) if self.loops else 0
        nc = len(self.loops[-1][1]) if self.loops else 0
        self.trystack.append(["BaseException"])
        alive = True
        try:
            try:
                body()
            except Dead:
                alive = False
        finally:
            self.trystack.pop()
            mine = self.exits
            self.exits = saved
        cur = self.st

        def run(st):
            self.st = st.copy()
            try:
                fin()
                return self.st
            except Dead:
                return None

        for pc, st, cls, info in mine:
            r = run(st)
            if r is not None:
                self.exits.append((r.pc, r, cls, info))
        fr.rets[nr:] = [(r.pc, r, v) for p, st, v in list(fr.rets[nr:]) for r in [run(st)] if r is not None]
        if self.loops:
            for which, n0 in ((0, nb), (1, nc)):
                l = self.loops[-1][which]
                l[n0:] = [(r.pc, r) for p, st in list(l[n0:]) for r in [run(st)] if r is not None]
        if not alive:
            self.st = cur
            raise Dead()
        self.st = cur
        fin()

    # -- loops
    def loop_else(self, s, fr):
        """for/while ... else with a break: the break sets a flag that the else clause tests"""
        cached = getattr(s, "_vx", None)
        if cached is None:
            flag = "#brk%d" % s.lineno

            def at(n):
                return ast.fix_missing_locations(ast.copy_location(n, s))

            class T(ast.NodeTransformer):
                def stop(self, n):
                    return n

                visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = stop

                def visit_For(self, n):
                    n.orelse = [y for x in n.orelse for y in self.flat(self.visit(x))]
                    return n

                visit_While = visit_For

                def flat(self, x):
                    return x if isinstance(x, list) else [x]

                def visit_Break(self, n):
                    self.hit = True
                    return [at(ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(True))), n]

            t = T()
            t.hit = False
            body = [y for x in copy.deepcopy(s.body) for y in t.flat(t.visit(x))]
            if t.hit:
                new = copy.copy(s)
                new.body, new.orelse = body, []
                cached = [at(ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(False))), new,
                          at(ast.If(ast.UnaryOp(ast.Not(), ast.Name(flag, ast.Load())), s.orelse, []))]
            else:
                new = copy.copy(s)
                new.orelse = []
                cached = [new] + s.orelse
            s._vx = cached
        self.block(cached, fr)

    def s_For(self, s, fr):
        if s.orelse:
            return self.loop_else(s, fr)
        it = self.ev(s.iter, fr)
        if it.op == "ref" and self.kind(it) == "iter":
            # the body may leave the loop early or read on: what is left is known only after a full run
            seq = self.iter_term(it)
            part = any(isinstance(q, (ast.Break, ast.Return, ast.Raise)) for q in ast.walk(s))
            names = {q.id for q in ast.walk(s.iter) if isinstance(q, ast.Name)}
            if part or any(isinstance(q, ast.Name) and q.id in names for b in s.body for q in ast.walk(b)):
                self.put(it, top("rest of an iterator"))
            it = seq
        self.for_loop(s.target, it, lambda: self.block(s.body, fr), fr)

    def s_While(self, s, fr):
        if s.orelse:
            return self.loop_else(s, fr)

        def body():
            c = self.truth(self.ev(s.test, fr))
            if c is not TRUE:
                def stop():
                    self.loops[-1][0].append((self.st.pc, self.st))
                    self.st = self.st.copy()
                    raise Dead()
                self.branch(c, lambda: None, stop)
            self.block(s.body, fr)

        # a few concrete rounds first: constant-bounded loops unroll
        if self.unroll_while(s, body, fr):
            return
        self.abstract_loop(None, mk("app", "unbounded", (), ()), lambda idx: None, body, fr)

    def unroll_while(self, s, body, fr):
        save = self.st.copy()
        n = len(self.exits)
        nr = len(fr.rets)
        for k in range(40):
            c = self.truth(self.ev(s.test, fr))
            if c is FALSE:
                return True
            if c is not TRUE or (isinstance(s.test, ast.Constant)):
                break
            self.loops.append(([], []))
            try:
                try:
                    self.block(s.body, fr)
                except Dead:
                    break
            finally:
                brk, cont = self.loops.pop()
            if brk or cont or len(self.exits) != n or len(fr.rets) != nr:
                break
        self.st = save
        del self.exits[n:]
        del fr.rets[nr:]
        return False

    def iter_term(self, v):
        """sequence value of an iterable"""
        if v.op == "obj":
            cls = self.objcls[v.args[0]]
            if isinstance(cls, Class):
                m, _ = cls.find("__iter__")
                if m:
                    return self.iter_term(self.call_func(m[1], [v], {}))
                if self.st.h.get(("a", v.args[0], "data")) is not None:
                    return self.iter_term(self.st.h[("a", v.args[0], "data")])
            return self.lib.native_iter(self, v, cls)
        if v.op == "ite" and not self.isref(v):
            return ite(v.args[0], self.iter_term(v.args[1]), self.iter_term(v.args[2]))
        x = self.d(v) if self.isref(v) else v
        if v.op == "ref" and self.kind(v) == "iter":
            self.put(v, lst())
            return x
        if x.op == "dict":
            return lst(*[k for k, _ in x.args])
        if x.op == "setitem" and self.kind(v) == "dict":
            return app("keys", x)
        if x.op == "const" and isinstance(x.args[0], str):
            return lst(*[const(ch) for ch in x.args[0]])
        return x

    def elems(self, v):
        """(count, element function) of an iterable; count None -> literal list"""
        seq = self.iter_term(v)
        if seq.op == "list":
            return None, list(seq.args)
        if seq.op == "range":
            a, b, st = seq.args
            k = as_int(st)
            n = sub(b, a)
            if k not in (1, -1, None):
                n = app("ceil", div(sub(b, a), st))
            elif k == -1:
                n = sub(a, b)
            elif k is None:
                n = app("ceil", div(sub(b, a), st))
            ni = as_int(n)
            if ni is not None and ni <= 24:
                return None, [add(a, mul(num(i), st)) for i in range(max(ni, 0))]
            return norm.natural(n), lambda i: add(a, mul(i, st))
        if seq.op == "zip":
            parts = [self.elems(x) for x in seq.args]
            if all(p[0] is None for p in parts):
                n = min(len(p[1]) for p in parts)
                return None, [lst(*[p[1][i] for p in parts]) for i in range(n)]
            n = None
            for p in parts:
                q = num(len(p[1])) if p[0] is None else p[0]
                n = q if n is None else norm.shorter(n, q)
            k = as_int(n)
            if k is not None:
                return None, [lst(*[p[1][i] if p[0] is None else p[1](num(i)) for p in parts]) for i in range(k)]
            return n, lambda i: lst(*[getitem(lst(*p[1]), i) if p[0] is None else p[1](i) for p in parts])
        if seq.op == "enumerate":
            n, f = self.elems(seq.args[0])
            s0 = seq.args[1]
            if n is None:
                return None, [lst(add(s0, num(i)), x) for i, x in enumerate(f)]
            return n, lambda i: lst(add(s0, i), f(i))
        if seq.op == "reversed":
            n, f = self.elems(seq.args[0])
            if n is None:
                return None, list(reversed(f))
            return n, lambda i: f(sub(sub(n, ONE), i))
        if seq.op == "items":
            d = seq.args[0]
            return app("len", d), lambda i: lst(getitem(app("keys", d), i), getitem(app("values", d), i))
        if seq.op == "app" and seq.args[0] == "groups":
            df, key = seq.args[1]
            c = self.lib.col(self, df, key)
            kw = seq.args[2] if len(seq.args) > 2 and isinstance(seq.args[2], tuple) else ()
            unsorted = any(k == "sort" and v is FALSE for k, v in kw)
            u = app("dropdup" if unsorted else "unique", c)
            return app("len", u), lambda i: lst(getitem(u, i), app("rows", df, mk("eq", c, getitem(u, i))))
        if seq.op == "app" and seq.args[0] == "iterrows":
            df = seq.args[1][0]
            ix = self.lib.df_index(df)
            return self.lib.df_len(df), lambda i: lst(i if ix is None else getitem(ix, i), app("row", df, i))
        if seq.op == "map" and seq.args[3] is TRUE:
            m = seq
            return m.args[1], lambda i: norm.subst(m.args[2], {m.args[0].id: i})
        if seq.op == "concat" and all(x.op == "list" for x in seq.args):
            return None, [y for x in seq.args for y in x.args]
        if seq.op == "concat":
            pass
        n = arr_len(seq)
        ni = as_int(n)
        # the rows of an array are views of it
        row = (lambda i: self.lib.subscript(self, v, i)) if v.op == "ref" and self.kind(v) == "array" and rank(seq) == 2 else (lambda i: getitem(seq, i))
        if ni is not None and ni <= 24:
            return None, [row(num(i)) for i in range(ni)]
        return n, row

    def for_loop(self, target, it, body, fr):
        if it.op == "ite" and (not self.isref(it) or holds_dicts(self.d(it))):
            self.branch(it.args[0], lambda: self.for_loop(target, it.args[1], body, fr),
                        lambda: self.for_loop(target, it.args[2], body, fr))
            return
        if it.op == "obj":
            fobj = self.lib.file_iter(self, it)
            if fobj is not None:
                it = fobj
        if it.op == "ref" and self.kind(it) == "list" and it.args[0] not in self.views and holds_dicts(self.d(it)):
            return self.dict_loop(target, it, body, fr)
        seq = self.iter_term(it)
        isarr = it.op == "ref" and self.kind(it) == "array"
        if seq.op == "flat":
            i, dom, rest = seq.args
            self.abstract_loop(None, dom, lambda k: None,
                               lambda: self.for_loop(target, norm.subst(rest, {i.id: self.curidx}), body, fr), fr)
            return
        if seq.op == "concat" and not all(x.op == "list" for x in seq.args):
            for part in seq.args:
                self.for_loop(target, part, body, fr)
            return
        if seq.op == "ite":
            self.branch(seq.args[0], lambda: self.for_loop(target, seq.args[1], body, fr),
                        lambda: self.for_loop(target, seq.args[2], body, fr))
            return
        n, f = self.elems(it if isarr and rank(seq) == 2 else seq)
        if isarr:
            if n is None:
                f = [x if self.isref(x) else self.arrbox(x) for x in f]
            else:
                f0 = f

                def f(i):
                    x = f0(i)
                    return x if self.isref(x) else self.arrbox(x)
        if n is None:
            self.unrolled(target, f, body, fr)
        else:
            g = TRUE
            if seq.op == "map" and seq.args[3] is not TRUE:
                m = seq
                n, f = m.args[1], (lambda i: norm.subst(m.args[2], {m.args[0].id: i}))
                gf = lambda i: norm.subst(m.args[3], {m.args[0].id: i})
                body0 = body

                def gbody(i_=[None]):
                    c = gf(self.curidx)
                    self.branch(c, body0, lambda: None)
                body = gbody
            self.abstract_loop(target, n, f, body, fr)

    def dict_loop(self, target, it, body, fr):
        """loop over a list of dictionaries, which the body may update in place:
        the updated elements are collected and become the list's new contents"""
        acc = self.alloc(lst(), "list")
        dirty = []
        if not isinstance(target, ast.Name):
            return self.for_loop(target, self.iter_term(it), body, fr)

        def wrapped():
            v = self.lookup(target.id, fr)
            old = None
            v = self.refine(v)
            if dictval(v):
                old = v
                v = self.alloc(v, "dict")
                self.assign(target, v, fr)
            n = len(self.loops[-1][0]) + len(self.loops[-1][1])
            body()
            if old is not None:
                if self.d(v) is not old:
                    dirty.append(1)
                    if n != len(self.loops[-1][0]) + len(self.loops[-1][1]):
                        raise Unsupported("early exit from a loop that updates its elements")
            self.put(acc, norm.concat(self.d(acc), lst(self.d(v) if old is not None else v)))
        self.for_loop(target, self.iter_term(it), wrapped, fr)
        if dirty:
            was = self.d(it)
            for k, v in self.st.h.items():
                if k[0] == "c" and k[1] != it.args[0] and k[1] != acc.args[0] and holds_dicts(v) and \
                        (v is was or any(x is was for x in subterms(v))):
                    raise Unsupported("update of dictionaries that two lists share")
            self.put(it, self.d(acc))

    curidx = None

    def unrolled(self, target, items, body, fr):
        base = self.st.pc
        brks = []
        alive = True
        for x in items:
            self.loops.append((brks, []))
            try:
                if target is not None:
                    self.bindelem(target, x, fr)
                try:
                    body()
                    end = [(self.st.pc, self.st, NONE)]
                except Dead:
                    end = []
            finally:
                _, conts = self.loops.pop()
            ends = [(p, s, NONE) for p, s in conts] + end
            if not ends:
                alive = False
                break
            if len(ends) > 1:
                self.st, _ = self.merge_exits(ends, base)
                self.st.pc = self.cover([e[0] for e in ends], base)
            else:
                self.st = ends[0][1]
        outs = [(p, s, NONE) for p, s in brks] + ([(self.st.pc, self.st, NONE)] if alive else [])
        if not outs:
            raise Dead()
        if len(outs) > 1:
            self.st, _ = self.merge_exits(outs, base)
            self.st.pc = self.cover([e[0] for e in outs], base)
        else:
            self.st = outs[0][1]

    def abstract_loop(self, target, dom, elem, body, fr):
        from .loops import solve
        solve(self, target, dom, elem, body, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return const(n.value)

    def e_Name(self, n, fr):
        v = self.lookup(n.id, fr)
        if v.op == "ite":
            v = self.refine(v)
        return v

    def e_NamedExpr(self, n, fr):
        v = self.box(self.ev(n.value, fr))
        self.assign(n.target, v, fr)
        return v

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr_(o, n.attr, fr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        i = self.index(n.slice, fr)
        return self.lib.subscript(self, o, i)

    def e_Tuple(self, n, fr):
        return self.seq(n.elts, fr)

    def e_List(self, n, fr):
        return self.alloc(self.seq(n.elts, fr), "list")

    def e_Set(self, n, fr):
        return app("set", self.seq(n.elts, fr))

    def seq(self, elts, fr):
        out = lst()
        for e in elts:
            if isinstance(e, ast.Starred):
                out = concat(out, self.iter_term(self.ev(e.value, fr)))
            else:
                out = concat(out, lst(self.box(self.ev(e, fr))))
        return out

    def e_Dict(self, n, fr):
        items = mk("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.d(self.ev(v, fr))
                if src.op == "dict":
                    for kk, vv in src.args:
                        items = setitem(items, kk, vv)
                elif items.op == "dict" and not items.args:
                    items = src
                else:
                    items = mk("dictmerge", items, src)
            else:
                kk = self.scalar(self.ev(k, fr))
                items = setitem(items, kk, self.box(self.ev(v, fr)))
        return self.alloc(items, "dict")

    def e_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        return self.branch(c, lambda: self.ev(n.body, fr), lambda: self.ev(n.orelse, fr))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(k):
            v = self.ev(n.values[k], fr)
            if k == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(k + 1), lambda: self.boolish(v, FALSE))
            return self.branch(c, lambda: self.boolish(v, TRUE), lambda: go(k + 1))

        return go(0)

    def boolish(self, v, b):
        return b if is_boolish(v) else v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if v.op == "obj":
            v = self.lib.numval(self, v)
        x = self.lib.numval(self, self.d(v))
        if isinstance(n.op, ast.USub):
            return self.arrbox(self.lib.arith(self, "neg", x))
        if isinstance(n.op, ast.Invert):
            if x.op == "list":
                return self.arrbox(lst(*[not_(y) for y in x.args]))
            return not_(x) if (is_boolish(x) or rank(x)) else app("logical_not", x)
        return x

    BIN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
           "MatMult": "dot"}
    DUN = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "BitOr": "__or__",
           "BitAnd": "__and__", "Pow": "__pow__", "Mod": "__mod__"}

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        for x, y, refl in ((a, b, False), (b, a, True)):
            if x.op == "obj":
                cls = self.objcls[x.args[0]]
                nm = self.DUN.get(op)
                if isinstance(cls, Class) and nm:
                    nm = nm if not refl else "__r" + nm[2:]
                    m, _ = cls.find(nm)
                    if m:
                        return self.call_func(m[1], [x, y], {})
        if a.op == "ite" and (self.hasobj(a)):
            return self.branch(a.args[0], lambda: self.binop(op, a.args[1], b), lambda: self.binop(op, a.args[2], b))
        if op == "BitOr" and self.lib.x_vspec_isparam(self, [a], {}, None) is TRUE:
            return self.call_func(self.module_attr(self.prog.module("refnx_model"), "param_or"), [a, b], {})
        return self.lib.binop(self, op, a, b)

    def hasobj(self, a):
        if a.op != "ite":
            return a.op == "obj"
        r = HASOBJ.get(a.id)
        if r is None:
            r = HASOBJ[a.id] = self.hasobj(a.args[1]) or self.hasobj(a.args[2])
        return r

    def e_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        parts = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, fr)
            parts.append(self.lib.compare(self, type(op).__name__, l, rv))
            l = rv
        return and_(*parts) if len(parts) > 1 else parts[0]

    def spread(self, v):
        """the entries of a sequence of known length, also one chosen between sequences of the same length"""
        if v.op == "list":
            return list(v.args)
        if v.op == "ite":
            a, b = self.spread(v.args[1]), self.spread(v.args[2])
            if a is not None and b is not None and len(a) == len(b):
                return [ite(v.args[0], x, y) for x, y in zip(a, b)]
            return None
        n = arr_len(v)
        if is_num(n) and 0 <= cval(n) <= 16:
            return [getitem(v, num(i)) for i in range(int(cval(n)))]
        return None

    def args(self, n, fr):
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.iter_term(self.ev(a.value, fr))
                w = self.spread(v)
                if w is not None:
                    pos.extend(self.box(x) for x in w)
                else:
                    pos.append(mk("star", self.freeze(v)))
            else:
                pos.append(self.box(self.ev(a, fr)))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                dct = self.d(v)
                if dct.op == "dict" and all(is_str(q) for q, _ in dct.args):
                    for q, w in dct.args:
                        kw[cval(q)] = w
                else:
                    kw[None] = v
            else:
                kw[k.arg] = self.box(v)
        return pos, kw

    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            slf = self.st.h.get(("v", f.fid, f.func.node.args.args[0].arg))
            return mk("super", slf, f.func.cls)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Subscript) and \
                n.func.attr in ("append", "extend", "insert", "sort", "reverse", "pop", "clear"):
            r = self.item_method(n, fr)
            if r is not None:
                return r
        v = n.func.value if isinstance(n.func, ast.Attribute) else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "setdefault" and len(v.args) == 2 and not v.keywords \
                and isinstance(v.args[1], ast.List) and not v.args[1].elts and n.func.attr in ("append", "extend") and isinstance(v.func.value, ast.Name) \
                and isinstance(v.args[0], (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.Call)):
            b = self.ev(v.func.value, fr)
            if b.op == "ref" and self.kind(b) == "dict" and self.d(b).op != "dict" or self.loopentry:
                # d.setdefault(k, []).append(x):  if k not in d: d[k] = [];  d[k].append(x)
                pair = SETDEF.get(id(n))
                if pair is None:
                    k, d = ast.unparse(v.args[0]), ast.unparse(v.func.value)
                    src = ast.parse(f"if {k} not in {d}:\n    {d}[{k}] = []\n")
                    call = ast.Call(ast.Attribute(ast.parse(f"{d}[{k}]", mode="eval").body, n.func.attr, ast.Load()), n.args, n.keywords)
                    for x in (src, call):
                        for y in ast.walk(x):
                            y.lineno = getattr(y, "lineno", None) or n.lineno
                            if isinstance(y, (ast.expr, ast.stmt)):
                                y.lineno, y.col_offset, y.end_lineno, y.end_col_offset = n.lineno, 0, n.lineno, 0
                    pair = SETDEF[id(n)] = (src.body[0], call, n)
                self.stmt(pair[0], fr)
                return self.ev(pair[1], fr)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__" and \
                n.func.attr in ("setdefault", "get", "pop"):
            r = self.instance_dict(n, fr)
            if r is not None:
                return r
        fv = self.ev(n.func, fr)
        if fv.op == "ext" and fv.args[0] in self.lib.LAZY:
            return self.lib.LAZY[fv.args[0]](self, n, fr)
        pos, kw = self.args(n, fr)
        fr.line = n.lineno
        return self.call(fv, pos, kw, n, fr)

    def instance_dict(self, n, fr):
        """o.__dict__.setdefault/get("name", v): attribute access in other words"""
        o = self.ev(n.func.value.value, fr)
        if o.op != "obj" or not isinstance(self.objcls[o.args[0]], Class):
            return None
        pos, kw = self.args(n, fr)
        if kw or not pos or not is_str(pos[0]):
            return None
        name = cval(pos[0])
        dflt = pos[1] if len(pos) > 1 else NONE
        h = self.hasattr_(o, name)

        def missing():
            if n.func.attr == "setdefault":
                self.setattr_(o, name, dflt)
            return dflt
        if n.func.attr == "pop" and h is not FALSE:
            raise Unsupported("__dict__.pop")
        if h is TRUE:
            return self.getattr_(o, name, fr)
        if h is FALSE:
            return missing()
        return self.branch(h, lambda: self.getattr_(o, name, fr), missing)

    def item_method(self, n, fr):
        """d[k].append(v) where the element is a list known only as a term"""
        b = self.ev(n.func.value.value, fr)
        if b.op != "ref" or self.kind(b) != "dict" or self.d(b).op == "dict":
            return None
        k = self.scalar(self.index(n.func.value.slice, fr))
        e = getitem(self.d(b), k)
        if e.op in ("ref", "obj", "ite"):
            return None
        cell = self.alloc(e, "list")
        pos, kw = self.args(n, fr)
        r = self.call(self.getattr_(cell, n.func.attr, fr), pos, kw, n, fr)
        self.put(b, setitem(self.d(b), k, self.d(cell)))
        return r

    def e_Lambda(self, n, fr):
        return self.early(self.mkfunc(n, fr.module, fr.fid, fr.func.cls if fr.func else None, "<lambda>"), n, fr)

    def early(self, f, n, fr):
        """defaults of a local function that depend on local variables: evaluated where it is defined"""
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        pairs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        kw = {}
        for k, d in pairs:
            if any(isinstance(q, ast.Name) and q.id not in fr.module.defs and not self.lib.is_builtin(q.id) for q in ast.walk(d)):
                kw[k] = self.box(self.ev(d, fr))
        if not kw:
            return f
        return mk("partial", f, (), tuple(sorted(kw.items())))

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is None and v.conversion in (-1, 115) and (x.op == "obj" or x.op == "ite" and self.hasobj(x)):
                    parts.append(self.lib.text_of(self, x))
                    continue
                x = self.freeze(x) if x.op != "obj" else app("strof", const("obj"))
                if v.format_spec is None and v.conversion == -1 and x.op == "const" and cval(x) in (None, True, False):
                    parts.append(const(str(cval(x))))
                    continue
                if (is_str(x) or x.op == "sym" and x.args[1] == "str" or x.op == "app" and x.args[0] in ("strcat", "str", "fmt")) and v.conversion == -1 and v.format_spec is None:
                    parts.append(x)
                elif as_int(x) is not None and v.conversion == -1 and v.format_spec is None:
                    parts.append(const(str(as_int(x))))
                else:
                    spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                    parts.append(app("fmt", x, const(f"{v.conversion}{spec}")) if (spec or v.conversion != -1) else app("str", x))
        return self.lib.strcat(parts)

    def e_FormattedValue(self, n, fr):
        return app("str", self.freeze(self.ev(n.value, fr)))

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def comp(self, gens, leaf, fr):
        """run generators; leaf(fr2) is executed at the innermost position"""
        f2 = Frame(self.uid(), fr.func, fr.module, fr, fr.depth)
        self.frames[f2.fid] = f2

        def go(k):
            if k == len(gens):
                leaf(f2)
                return
            g = gens[k]
            it = self.ev(g.iter, f2)

            def body():
                def rest(j):
                    if j == len(g.ifs):
                        go(k + 1)
                        return
                    c = self.truth(self.ev(g.ifs[j], f2))
                    self.branch(c, lambda: rest(j + 1), lambda: None)
                rest(0)
            self.for_loop(g.target, it, body, f2)

        go(0)
        if any(f.closure == f2.fid for f in self.funcs.values()):
            return              # a function made in the comprehension still reads its variables
        for k in [k for k in self.st.h if k[0] == "v" and k[1] == f2.fid]:
            del self.st.h[k]

    def e_ListComp(self, n, fr):
        cell = self.alloc(lst(), "list")

        def leaf(f2):
            v = self.box(self.ev(n.elt, f2))
            self.put(cell, concat(self.d(cell), lst(v)))
        self.comp(n.generators, leaf, fr)
        return cell

    def e_GeneratorExp(self, n, fr):
        return self.d(self.e_ListComp(n, fr))

    def e_SetComp(self, n, fr):
        return app("set", self.d(self.e_ListComp(n, fr)))

    def e_DictComp(self, n, fr):
        cell = self.alloc(mk("dict"), "dict")

        def leaf(f2):
            k = self.scalar(self.ev(n.key, f2))
            v = self.box(self.ev(n.value, f2))
            self.put(cell, setitem(self.d(cell), k, v))
        self.comp(n.generators, leaf, fr)
        return cell

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else NONE
        if self.yieldcb and self.yieldcb[-1][0] is fr:
            cb = self.yieldcb[-1][1]
            cb(v)
            return NONE
        self.put(fr.yields, concat(self.d(fr.yields), lst(v)))
        return NONE

    def e_YieldFrom(self, n, fr):
        v = self.iter_term(self.ev(n.value, fr))
        self.put(fr.yields, concat(self.d(fr.yields), v))
        return NONE

    def e_Slice(self, n, fr):
        return self.index(n, fr)

    def e_Await(self, n, fr):
        raise Unsupported("await")
