"""Reference semantics of mixing and slab assembly (C05, C06, C21)."""
import copy
import numpy as np
from refellips.dispersion import RI, Cauchy
from refellips.structureSE import (
    ScattererSE,
    ComponentSE,
    SlabSE,
    MixedSlabSE,
    StructureSE,
    overall_ri,
)
from refnx.analysis import Parameters, Parameter
from refnx.reflect.interface import Interface
import vspec


class Mat(ScattererSE):
    """any user defined material: an arbitrary function of the wavelength"""

    def __init__(self, tag, pars=None):
        super().__init__(name="mat" + tag, wavelength=500)
        self.tag = tag
        self._p = Parameters(name=tag)
        if pars is not None:
            self._p.extend(pars)

    @property
    def parameters(self):
        return self._p

    def complex(self, wavelength):
        return vspec.UF("n_of", "cplx", self.tag, wavelength)


def N(tag, wavelength):
    return vspec.UF("n_of", "cplx", tag, wavelength)


# -- effective medium approximations -----------------------------------------
def mix(a, b, v, ema, L):
    ea = a**2
    eb = b**2
    if ema == "linear":
        e = (1 - v) * ea + v * eb
    elif ema == "maxwell-garnett":
        q = (ea + (L * (1 - v) + v) * (eb - ea)) / (ea + L * (1 - v) * (eb - ea))
        e = ea * np.where(np.isfinite(q), q, 0)
    elif ema == "bruggeman":
        h = ea * ((1 - v) - L) + eb * (v - L)
        q = (h + np.sqrt(h**2 + 4 * (1 - L) * L * ea * eb)) / (2 * (1 - L))
        e = np.where(np.isfinite(q), q, 0)
    else:
        raise RuntimeError()
    return np.sqrt(e)


def H_ema(a: "cplx@nk", b: "cplx@nk", v: "unit", ema: "str@linear,maxwell-garnett,bruggeman,other", L: "unit"):
    return overall_ri(a, b, vf_B=v, ema=ema, depolarisation_factor=L)


def S_ema(a: "cplx@nk", b: "cplx@nk", v: "unit", ema: "str@linear,maxwell-garnett,bruggeman,other", L: "unit"):
    return mix(a, b, v, ema, L)


def H_ema_arr(a: "carr:n@nk", b: "cplx@nk", v: "arr:n@unit", ema: "str@linear,maxwell-garnett,bruggeman,other", L: "unit"):
    return overall_ri(a, b, vf_B=v, ema=ema, depolarisation_factor=L)


def S_ema_arr(a: "carr:n@nk", b: "cplx@nk", v: "arr:n@unit", ema: "str@linear,maxwell-garnett,bruggeman,other", L: "unit"):
    return mix(a, b, v, ema, L)


def H_ema_default(a: "cplx@nk", b: "cplx@nk", v: "unit", L: "unit"):
    return overall_ri(a, b), overall_ri(a, b, v), overall_ri(a, b, v, "maxwell-garnett")


def S_ema_default(a: "cplx@nk", b: "cplx@nk", v: "unit", L: "unit"):
    return mix(a, b, 0.0, "linear", 1 / 3), mix(a, b, v, "linear", 1 / 3), mix(a, b, v, "maxwell-garnett", 1 / 3)


# -- component slabs ----------------------------------------------------------
def H_slab(t: "param", r: "param", v: "param", wl: "posreal@wl"):
    s = SlabSE(t, Mat("a"), r, vfsolv=v)
    st = StructureSE(wavelength=wl)
    return s.slabs(structure=st), s.slabs()


def S_slab(t: "param", r: "param", v: "param", wl: "posreal@wl"):
    x = N("a", wl)
    y = N("a", None)
    return (
        np.array([[t.value, np.real(x), np.imag(x), r.value, v.value]]),
        np.array([[t.value, np.real(y), np.imag(y), r.value, v.value]]),
    )


def H_slab_nondisp(t: "param", r: "param", v: "param", wl: "posreal@wl"):
    m = Mat("a")
    m.dispersive = False
    s = SlabSE(t, m, r, vfsolv=v)
    st = StructureSE(wavelength=wl)
    return s.slabs(structure=st)


def S_slab_nondisp(t: "param", r: "param", v: "param", wl: "posreal@wl"):
    x = N("a", None)
    return np.array([[t.value, np.real(x), np.imag(x), r.value, v.value]])


def H_mixed(t: "param", r: "param", v: "param", wl: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit"):
    s = MixedSlabSE(t, Mat("a"), Mat("b"), v, r)
    st = StructureSE(wavelength=wl, ema=ema, depolarisation_factor=L)
    return s.slabs(structure=st)


def S_mixed(t: "param", r: "param", v: "param", wl: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit"):
    StructureSE(wavelength=wl, ema=ema, depolarisation_factor=L)
    x = mix(N("a", wl), N("b", wl), v.value, ema, float(L))
    return np.array([[t.value, np.real(x), np.imag(x), r.value, 0.0]])


def H_mixed_alone(t: "param", r: "param", v: "param"):
    s = MixedSlabSE(t, Mat("a"), Mat("b"), v, r)
    return s.slabs()


def S_mixed_alone(t: "param", r: "param", v: "param"):
    x = mix(N("a", None), N("b", None), v.value, "linear", 1 / 3)
    return np.array([[t.value, np.real(x), np.imag(x), r.value, 0.0]])


# -- structures ---------------------------------------------------------------
def row(t, n, r, v):
    return [t.value, np.real(n), np.imag(n), r.value, v.value]


def solvate(s, solv, ema, L):
    """mix every layer except fronting and backing with the solvent"""
    if (s[:, 4] > 0).any():
        n = mix(s[1:-1, 1] + 1j * s[1:-1, 2], solv, s[1:-1, 4], ema, L)
        s[1:-1, 1] = np.real(n)
        s[1:-1, 2] = np.imag(n)
    return s


def H_struct4(
    t1: "param", t2: "param", r1: "param", r2: "param", r3: "param", v1: "param", v2: "param", wl: "posreal@wl",
    ema: "str@linear,maxwell-garnett,bruggeman",
):
    a = Mat("a")
    s = a() | Mat("b")(t1, r1, v1) | Mat("c")(t2, r2, v2) | Mat("d")(0, r3)
    s.ema = ema
    s.wavelength = wl
    return s.slabs()


def S_struct4(
    t1: "param", t2: "param", r1: "param", r2: "param", r3: "param", v1: "param", v2: "param", wl: "posreal@wl",
    ema: "str@linear,maxwell-garnett,bruggeman",
):
    na, nb, nc, nd = N("a", wl), N("b", wl), N("c", wl), N("d", wl)
    s = np.array(
        [
            [0.0, np.real(na), np.imag(na), 0.0, 0.0],
            row(t1, nb, r1, v1),
            row(t2, nc, r2, v2),
            [0.0, np.real(nd), np.imag(nd), r3.value, 0.0],
        ]
    )
    return solvate(s, complex(s[-1, 1], s[-1, 2]), ema, 1 / 3)


def H_struct_rev(
    t1: "param", t2: "param", r1: "param", r2: "param", r3: "param", v1: "param", v2: "param", wl: "posreal@wl",
    ema: "str@linear,maxwell-garnett,bruggeman", L: "unit",
):
    c = [Mat("a")(), Mat("b")(t1, r1, v1), Mat("c")(t2, r2, v2), Mat("d")(0, r3)]
    s = StructureSE(c, reverse_structure=True, wavelength=wl, ema=ema, depolarisation_factor=L)
    return s.slabs()


def S_struct_rev(
    t1: "param", t2: "param", r1: "param", r2: "param", r3: "param", v1: "param", v2: "param", wl: "posreal@wl",
    ema: "str@linear,maxwell-garnett,bruggeman", L: "unit",
):
    StructureSE(wavelength=wl, ema=ema, depolarisation_factor=L)
    na, nb, nc, nd = N("a", wl), N("b", wl), N("c", wl), N("d", wl)
    s = np.array(
        [
            [0.0, np.real(nd), np.imag(nd), 0.0, 0.0],
            [t2.value, np.real(nc), np.imag(nc), r3.value, v2.value],
            [t1.value, np.real(nb), np.imag(nb), r2.value, v1.value],
            [0.0, np.real(na), np.imag(na), r1.value, 0.0],
        ]
    )
    return solvate(s, complex(s[-1, 1], s[-1, 2]), ema, float(L))


def H_struct_solvent(
    t1: "param", r1: "param", v1: "param", wl: "posreal@wl", wl2: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman",
):
    c = [Mat("a")(), Mat("b")(t1, r1, v1), Mat("d")(0, 0)]
    s = StructureSE(c, solvent=Mat("w"), wavelength=wl, ema=ema)
    return s.slabs(wavelength=wl2), s.wavelength


def S_struct_solvent(
    t1: "param", r1: "param", v1: "param", wl: "posreal@wl", wl2: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman",
):
    w = float(wl2)
    na, nb, nd = N("a", w), N("b", w), N("d", w)
    s = np.array(
        [
            [0.0, np.real(na), np.imag(na), 0.0, 0.0],
            row(t1, nb, r1, v1),
            [0.0, np.real(nd), np.imag(nd), 0.0, 0.0],
        ]
    )
    return solvate(s, N("w", w), ema, 1 / 3), w


class Comp(ComponentSE):
    """any user defined component: an arbitrary block of slabs"""

    def __init__(self, tag):
        super().__init__(name=tag)
        self.tag = tag

    @property
    def parameters(self):
        return Parameters(name=self.tag)

    def slabs(self, structure=None):
        return vspec.UF("block", "arr2", self.tag, getattr(structure, "wavelength", None))


def blocks(wl):
    na, nd = N("a", wl), N("d", wl)
    return np.concatenate(
        [
            np.array([[0.0, np.real(na), np.imag(na), 0.0, 0.0]]),
            vspec.UF("block", "arr2", "x", wl),
            vspec.UF("block", "arr2", "y", wl),
            np.array([[0.0, np.real(nd), np.imag(nd), 0.0, 0.0]]),
        ]
    )


def H_struct_blocks(wl: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman"):
    c = [Mat("a")(), Comp("x"), Comp("y"), Mat("d")(0, 0)]
    s = StructureSE(c, solvent=Mat("w"), wavelength=wl, ema=ema)
    return s.slabs()


def S_struct_blocks(wl: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman"):
    return solvate(blocks(wl), N("w", wl), ema, 1 / 3)


def H_struct_blocks_rev(wl: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman"):
    c = [Mat("a")(), Comp("x"), Comp("y"), Mat("d")(0, 0)]
    s = StructureSE(c, solvent=Mat("w"), wavelength=wl, ema=ema, reverse_structure=True)
    return s.slabs()


def S_struct_blocks_rev(wl: "posreal@wl", ema: "str@linear,maxwell-garnett,bruggeman"):
    s = blocks(wl)
    q = np.array(s[1:, 3])
    s = np.flipud(s)
    s[1:, 3] = q[::-1]
    s[0, 3] = 0.0
    return solvate(s, N("w", wl), ema, 1 / 3)


# -- construction algebra -------------------------------------------------------
def H_or(t: "param"):
    a, b, c, d = Mat("a"), Mat("b")(t), Comp("x"), Mat("d")
    s = a() | b
    s2 = s | c | d
    return [x.name for x in s.data], [x.name for x in s2.data], s is s2, s2.data[1] is b, s2.data[2] is c


def S_or(t: "param"):
    return ["mata", "matb"], ["mata", "matb", "x", "matd"], False, True, True


def H_ior(t: "param"):
    b, c = Mat("b")(t), Comp("x")
    s = StructureSE()
    q = s
    s |= Mat("a")
    s |= b
    u = StructureSE([c, b])
    s |= u
    s.append(Mat("d"))
    return [x.name for x in s.data], s is q, s.data[1] is b, s.data[3] is b, len(u.data), s.data is u.data


def S_ior(t: "param"):
    return ["mata", "matb", "x", "matb", "matd"], True, True, True, 2, False


def H_ior_self(t: "param"):
    b, c = Mat("b")(t), Comp("x")
    s = StructureSE([b, c])
    s |= s
    return [x is b for x in s.data], [x is c for x in s.data], [x is b for x in (s | s).data]


def S_ior_self(t: "param"):
    return [True, False, True, False], [False, True, False, True], [True, False, True, False, True, False, True, False]


def H_mul(t: "param", n: "int"):
    b = Mat("b")(t)
    if n > 1:
        s = b * n
        return s.data, isinstance(s, StructureSE)
    return None


def S_mul(t: "param", n: "int"):
    b = Mat("b")(t)
    if n > 1:
        return [b] * n, True
    return None


def H_mul1(t: "param"):
    b = Mat("b")(t)
    s = b * 1
    e = b * 0
    return s is b, len(e.data), isinstance(e, StructureSE), [x.name for x in (b * 3).data]


def S_mul1(t: "param"):
    return True, 0, True, ["matb", "matb", "matb"]


def H_copy(ema: "str", L: "unit", wl: "posreal", con: "posreal", rev: "bool", nm: "str"):
    w = Mat("w")
    b = Comp("x")
    e = Comp("y")
    s = StructureSE([b, e, b], name=nm, solvent=w, reverse_structure=rev, contract=con, wavelength=wl, ema=ema, depolarisation_factor=L)
    c = copy.copy(s)
    c.append(b)
    return (
        c.name, c.solvent is w, c.reverse_structure, c.contract, c.wavelength, c.ema, c.depolarisation_factor,
        len(s.data), len(c.data), c is s, [x is b for x in c.data], [x is e for x in c.data],
    )


def S_copy(ema: "str", L: "unit", wl: "posreal", con: "posreal", rev: "bool", nm: "str"):
    StructureSE(depolarisation_factor=L)
    return nm, True, bool(rev), con, wl, ema, float(L), 3, 4, False, [True, False, True, True], [False, True, False, False]


def H_append_bad(x: "any"):
    s = StructureSE()
    try:
        s.append(3.0)
    except ValueError:
        return "rejected", len(s.data)
    return "accepted", len(s.data)


def S_append_bad(x: "any"):
    return "rejected", 0


def H_dp(L: "real"):
    s = StructureSE(depolarisation_factor=0.5)
    try:
        s.depolarisation_factor = L
    except ValueError:
        return "rejected", s.depolarisation_factor
    return "ok", s.depolarisation_factor


def S_dp(L: "real"):
    if 0 <= float(L) and float(L) <= 1:
        return "ok", float(L)
    return "rejected", 0.5


def H_slab_reject(x: "real"):
    try:
        SlabSE(10, x, 3)
    except ValueError:
        return "rejected"
    return "accepted"


def S_slab_reject(x: "real"):
    return "rejected"


# -- parameters of components and structures ------------------------------------------
class PMat(ScattererSE):
    """any user material with parameters of its own"""

    def __init__(self, ps, tag="a"):
        super().__init__()
        self.tag = tag
        self._p = Parameters(ps, name="m")

    @property
    def parameters(self):
        return self._p

    def complex(self, wavelength):
        return vspec.UF("pmat", "cplx", self.tag, wavelength, [float(p) for p in self._p])


def H_slab_par(t: "param", r: "param", v: "param", ps: "params", qs: "params"):
    s = SlabSE(t, PMat(ps), r, vfsolv=v)
    m = MixedSlabSE(t, PMat(ps), PMat(qs), v, r)
    return list(s.parameters.flattened()), list(m.parameters.flattened())


def S_slab_par(t: "param", r: "param", v: "param", ps: "params", qs: "params"):
    return [t] + list(ps) + [r, v], [t] + list(ps) + list(qs) + [v, r]


def H_slab_num(t: "real", r: "real", v: "real", ps: "params", qs: "params", wl: "posreal@wl"):
    a, b = PMat(ps), PMat(qs)
    s = SlabSE(t, a, r, vfsolv=v)
    m = MixedSlabSE(t, a, b, v, r)
    u = a(t, r, v)
    return (
        [float(p) for p in s.parameters.flattened()], [float(p) for p in m.parameters.flattened()],
        [float(p) for p in u.parameters.flattened()],
        (s.thick.value, s.rough.value, s.vfsolv.value, s.ri is a),
        (m.thick.value, m.rough.value, m.vf_B.value, m.ri_A is a, m.ri_B is b),
        (u.thick.value, u.rough.value, u.vfsolv.value, u.ri is a),
        s.slabs(StructureSE(wavelength=wl)),
    )


def S_slab_num(t: "real", r: "real", v: "real", ps: "params", qs: "params", wl: "posreal@wl"):
    P, Q = [float(p) for p in ps], [float(p) for p in qs]
    x = vspec.UF("pmat", "cplx", "a", wl, [float(p) for p in ps])
    return (
        [t] + P + [r, v], [t] + P + Q + [v, r], [t] + P + [r, v],
        (t, r, v, True), (t, r, v, True, True), (t, r, v, True),
        np.array([[t, np.real(x), np.imag(x), r, v]]),
    )


def H_struct_par(t: "param", r: "param", v: "param", t2: "param", r2: "param", v2: "param", ps: "params", qs: "params", x: "real"):
    s = SlabSE(t2, PMat(ps), r2, vfsolv=v2) | SlabSE(t, PMat(qs), r, vfsolv=v)
    a = list(s.parameters.flattened())
    s.append(MixedSlabSE(t2, PMat(qs), PMat(ps), v2, r2))
    b = list(s.parameters.flattened())
    t.value = x
    return a, b, s[1].slabs()[0, 0]


def S_struct_par(t: "param", r: "param", v: "param", t2: "param", r2: "param", v2: "param", ps: "params", qs: "params", x: "real"):
    t.value = x
    a = [t2] + list(ps) + [r2, v2, t] + list(qs) + [r, v]
    return a, a + [t2] + list(qs) + list(ps) + [v2, r2], x


# -- contraction, interfaces, defaults and refusals -------------------------------------
def H_contract(wl: "posreal@wl", con: "real"):
    c = [Mat("a")(), Comp("x"), Comp("y"), Mat("d")(0, 0)]
    s = StructureSE(c, contract=con, wavelength=wl, solvent=Mat("w"))
    return s.slabs()


def H_contract_rev(wl: "posreal@wl", con: "real"):
    s = StructureSE([Mat("a")(), Mat("x")(30, 5), Mat("y")(20, 2, 0.5), Mat("d")(0, 3)], contract=con, wavelength=wl, reverse_structure=True)
    return s.slabs()


def S_contract_rev(wl: "posreal@wl", con: "real"):
    s = StructureSE([Mat("a")(), Mat("x")(30, 5), Mat("y")(20, 2, 0.5), Mat("d")(0, 3)], wavelength=wl, reverse_structure=True).slabs()
    if con > 0:
        return vspec.UF("contract", "arr2", s, con)
    return s


def S_contract(wl: "posreal@wl", con: "real"):
    s = solvate(blocks(wl), N("w", wl), "linear", 1 / 3)
    if con > 0:
        return vspec.UF("contract", "arr2", s, con)
    return s


class Micro(StructureSE):
    """the micro-slab representation as an arbitrary function of what solvation yields"""

    def _micro_slabs(self, *args, **kwds):
        x = vspec.UF("raw", "arr2", self.wavelength)
        return vspec.UF("micro", "arr2", self.overall_sld(x, self.solvent))


def micro(wl, solv):
    x = np.array(vspec.UF("raw", "arr2", wl))
    n = mix(x[:, 1] + 1j * x[:, 2], solv, x[:, 4], "linear", 1 / 3)
    x[:, 1] = np.real(n)
    x[:, 2] = np.imag(n)
    return vspec.UF("micro", "arr2", x)


class Edge(Interface):
    """any interface that is not Gaussian"""

    def __call__(self, x, loc=0.0, scale=1.0):
        return vspec.UF("edge", "arr", x, loc, scale)


def interfaced(i, j, k, t, wl, solv, rev):
    c = [
        SlabSE(0, Mat("a"), 0, interface=i),
        MixedSlabSE(t, Mat("b"), Mat("c"), 0.25, 3, interface=j),
        SlabSE(0, Mat("d"), 0, interface=k),
    ]
    s = Micro(c, wavelength=wl, solvent=solv, reverse_structure=rev)
    return s.slabs(), [x.interfaces for x in c]


def three(wl, t, rev):
    w = Mat("w")
    e = Edge()
    return (
        interfaced(e, None, None, t, wl, w, rev),
        interfaced(None, e, None, t, wl, w, rev),
        interfaced(None, None, e, t, wl, None, rev),
    ), e


def ref_three(wl, t, rev):
    e = Edge()
    na, nd, nw = N("a", wl), N("d", wl), N("w", wl)
    out = []
    for i, z in ((0, nw), (1, nw), (2, na if rev else nd)):
        s = micro(wl, z)
        if rev:
            q = np.array(s[1:, 3])
            s = np.flipud(s)
            s[1:, 3] = q[::-1]
            s[0, 3] = 0.0
        s = solvate(s, z if i < 2 else complex(s[-1, 1], s[-1, 2]), "linear", 1 / 3)
        out.append((s, [e if j == i else None for j in range(3)]))
    return tuple(out), e


def H_micro(wl: "posreal@wl", t: "param"):
    return three(wl, t, False)


def S_micro(wl: "posreal@wl", t: "param"):
    return ref_three(wl, t, False)


def H_micro_rev(wl: "posreal@wl", t: "param"):
    return three(wl, t, True)


def S_micro_rev(wl: "posreal@wl", t: "param"):
    return ref_three(wl, t, True)


def H_smooth(wl: "posreal@wl", t: "param", rev: "bool"):
    return interfaced(None, None, None, t, wl, None, rev)


def S_smooth(wl: "posreal@wl", t: "param", rev: "bool"):
    na, nd = N("a", wl), N("d", wl)
    x = mix(N("b", wl), N("c", wl), 0.25, "linear", 1 / 3)
    m = [t.value, np.real(x), np.imag(x), 3.0, 0.0]
    if rev:
        a, d, p, q = nd, na, 0.0, 3.0
    else:
        a, d, p, q = na, nd, 3.0, 0.0
    return np.array(
        [
            [0.0, np.real(a), np.imag(a), 0.0, 0.0],
            [t.value, np.real(x), np.imag(x), p, 0.0],
            [0.0, np.real(d), np.imag(d), q, 0.0],
        ]
    ), [None, None, None]


def H_sdefault(t: "param", wl: "posreal@wl"):
    s = StructureSE()
    a = Mat("a")
    b = a()
    c = SlabSE(t, a, 3)
    m = MixedSlabSE(t, a, Mat("b"), 0.5, 3)
    return (
        s.slabs(), len(s.data), s.solvent, s.reverse_structure, s.contract, s.wavelength, s.ema, s.depolarisation_factor, s.name,
        (b.thick.value, b.rough.value, b.vfsolv.value, b.ri is a, b.name),
        (c.vfsolv.value, c.interfaces, m.interfaces),
        (b.vfsolv.bounds.lb, b.vfsolv.bounds.ub, m.vf_B.bounds.lb, m.vf_B.bounds.ub),
    )


def S_sdefault(t: "param", wl: "posreal@wl"):
    return (
        None, 0, None, False, 0, None, "linear", 1 / 3, "",
        (0, 0, 0, True, "mata"),
        (0, None, None),
        (0.0, 1.0, 0.0, 1.0),
    )


def refused(s, wl):
    try:
        s.slabs(wavelength=wl)
    except ValueError:
        return True
    return False


def H_ends(wl: "posreal@wl"):
    a, x, d = Mat("a")(), Comp("x"), Mat("d")(0, 0)
    r = [refused(StructureSE(c), wl) for c in ([x, a, d], [a, d, x], [x])]
    return r, StructureSE([a, d]).slabs(wavelength=wl)


def S_ends(wl: "posreal@wl"):
    w = float(wl)
    na, nd = N("a", w), N("d", w)
    s = np.array([[0.0, np.real(na), np.imag(na), 0.0, 0.0], [0.0, np.real(nd), np.imag(nd), 0.0, 0.0]])
    return [True, True, True], s


def H_solvent_bad(x: "real"):
    w = Mat("w")
    s = StructureSE(solvent=w)
    try:
        s.solvent = x
    except ValueError:
        r = "refused"
    else:
        r = "accepted"
    k = s.solvent is w
    s.solvent = None
    return r, k, s.solvent


def S_solvent_bad(x: "real"):
    return "refused", True, None


def H_mul_neg(t: "param", n: "int"):
    b = Mat("b")(t)
    if n < 1:
        e = b * n
        return e is b, len(e.data), isinstance(e, StructureSE)
    return None


def S_mul_neg(t: "param", n: "int"):
    if n < 1:
        return False, 0, True
    return None


def H_ri_method(X: "arr2:N,5", wl: "posreal@wl", k: "int", c: "cplx@nk", rev: "bool", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit"):
    s = StructureSE(
        [Mat("a")(), Mat("d")(0, 0)], wavelength=wl, ema=ema, depolarisation_factor=L, reverse_structure=rev
    )
    if k == 0:
        return s.overall_ri(np.array(X), None)
    if k == 1:
        return s.overall_ri(np.array(X), c)
    return s.overall_ri(np.array(X), Mat("w"))


def S_ri_method(X: "arr2:N,5", wl: "posreal@wl", k: "int", c: "cplx@nk", rev: "bool", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit"):
    StructureSE(depolarisation_factor=L)
    if k == 0:
        z = N("a", wl) if rev else N("d", wl)
    elif k == 1:
        z = c
    else:
        z = N("w", wl)
    s = np.array(X)
    n = mix(s[:, 1] + 1j * s[:, 2], z, s[:, 4], ema, float(L))
    s[:, 1] = np.real(n)
    s[:, 2] = np.imag(n)
    return s


def H_ior_bad(x: "real"):
    s = Mat("a")() | Mat("b")
    try:
        s |= x
    except ValueError:
        return "refused", len(s.data)
    return "accepted", len(s.data)


def S_ior_bad(x: "real"):
    return "refused", 2


class Nothing(ComponentSE):
    """a component that contributes no layers"""

    def __init__(self):
        super().__init__(name="nothing")

    @property
    def parameters(self):
        return Parameters(name="nothing")

    def slabs(self, structure=None):
        return None


def H_struct_none(wl: "posreal@wl"):
    c = [Mat("a")(), Nothing(), Comp("x"), Comp("y"), Nothing(), Mat("d")(0, 0)]
    return StructureSE(c, solvent=Mat("w"), wavelength=wl).slabs()


def S_struct_none(wl: "posreal@wl"):
    return solvate(blocks(wl), N("w", wl), "linear", 1 / 3)


def H_mixed_nondisp(t: "param", r: "param", v: "param", wl: "posreal@wl"):
    m = Mat("a")
    m.dispersive = False
    st = StructureSE(wavelength=wl)
    return MixedSlabSE(t, m, Mat("b"), v, r).slabs(st), MixedSlabSE(t, Mat("b"), m, v, r).slabs(st)


def S_mixed_nondisp(t: "param", r: "param", v: "param", wl: "posreal@wl"):
    a, b = N("a", None), N("b", wl)
    x = mix(a, b, v.value, "linear", 1 / 3)
    y = mix(b, a, v.value, "linear", 1 / 3)
    return (
        np.array([[t.value, np.real(x), np.imag(x), r.value, 0.0]]),
        np.array([[t.value, np.real(y), np.imag(y), r.value, 0.0]]),
    )


def H_mul_frac(t: "param"):
    b = Mat("b")(t)
    try:
        b * 2.5
    except TypeError:
        return "refused"
    return "accepted"


def S_mul_frac(t: "param"):
    return "refused"


# -- thin and empty components, later changes, operands ------------------------------------
def H_ema_none(a: "cplx@nk", b: "cplx@nk", L: "unit", ema: "str@linear,maxwell-garnett,bruggeman"):
    return overall_ri(a, b, 0.0, ema, L), overall_ri(a, b, 1.0, ema, L), overall_ri(a, a, 0.5, ema, L)


def S_ema_none(a: "cplx@nk", b: "cplx@nk", L: "unit", ema: "str@linear,maxwell-garnett,bruggeman"):
    return mix(a, b, 0.0, ema, L), mix(a, b, 1.0, ema, L), mix(a, a, 0.5, ema, L)


class Empty(ComponentSE):
    """a component whose table of layers has no rows"""

    def __init__(self):
        super().__init__(name="empty")

    @property
    def parameters(self):
        return Parameters(name="empty")

    def slabs(self, structure=None):
        return np.zeros((0, 5))


def H_hollow(wl: "posreal@wl"):
    c = [Mat("a")(), Empty(), Comp("x"), Comp("y"), Mat("d")(0, 0)]
    return StructureSE(c, solvent=Mat("w"), wavelength=wl).slabs()


def S_hollow(wl: "posreal@wl"):
    return solvate(blocks(wl), N("w", wl), "linear", 1 / 3)


class ParMat(ScattererSE):
    """a material whose index follows its parameter"""

    def __init__(self, p):
        super().__init__(name="par", wavelength=500)
        self.p = p

    @property
    def parameters(self):
        return Parameters([self.p], name="par")

    def complex(self, wavelength):
        return vspec.UF("n_of_p", "cplx", self.p.value, wavelength)


def H_later(t: "param", r: "param", v: "param", p: "param", x: "real", y: "real", z: "unit", q: "real", wl: "posreal@wl", wl2: "posreal@wl"):
    m = ParMat(p)
    s = Mat("a")() | SlabSE(t, m, r, vfsolv=v) | MixedSlabSE(t, m, Mat("b"), v, r) | Mat("d")(0, 0)
    s.wavelength = wl
    a = s.slabs()
    t.value = x
    r.value = y
    v.value = z
    p.value = q
    s.wavelength = wl2
    b = s.slabs()
    return a, b, s.slabs()


def later(t, r, v, p, wl, ema):
    na, nd, n = N("a", wl), N("d", wl), vspec.UF("n_of_p", "cplx", p, wl)
    m = mix(n, N("b", wl), v, ema, 1 / 3)
    s = np.array(
        [
            [0.0, np.real(na), np.imag(na), 0.0, 0.0],
            [t, np.real(n), np.imag(n), r, v],
            [t, np.real(m), np.imag(m), r, 0.0],
            [0.0, np.real(nd), np.imag(nd), 0.0, 0.0],
        ]
    )
    return solvate(s, complex(s[-1, 1], s[-1, 2]), ema, 1 / 3)


def H_later_ema(t: "param", v: "param", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit", wl: "posreal@wl"):
    s = Mat("a")() | SlabSE(t, Mat("b"), 0, vfsolv=v) | Mat("d")(0, 0)
    s.wavelength = wl
    a = s.slabs()
    s.ema = ema
    s.depolarisation_factor = L
    return a, s.slabs()


def S_later_ema(t: "param", v: "param", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit", wl: "posreal@wl"):
    na, nd, n = N("a", wl), N("d", wl), N("b", wl)
    StructureSE(depolarisation_factor=L)
    s = np.array(
        [
            [0.0, np.real(na), np.imag(na), 0.0, 0.0],
            [t.value, np.real(n), np.imag(n), 0.0, v.value],
            [0.0, np.real(nd), np.imag(nd), 0.0, 0.0],
        ]
    )
    return solvate(np.array(s), nd, "linear", 1 / 3), solvate(np.array(s), nd, ema, float(L))


def S_later(t: "param", r: "param", v: "param", p: "param", x: "real", y: "real", z: "unit", q: "real", wl: "posreal@wl", wl2: "posreal@wl"):
    a = later(t.value, r.value, v.value, p.value, wl, "linear")
    t.value = x
    r.value = y
    v.value = z
    p.value = q
    b = later(t.value, r.value, v.value, p.value, wl2, "linear")
    return a, b, b


def H_ema_unknown(a: "cplx@nk", b: "cplx@nk", v: "unit"):
    out = []
    for ema in (None, "", 0, "Linear", "looyenga"):
        try:
            overall_ri(a, b, v, ema)
        except RuntimeError:
            out.append("refused")
        else:
            out.append("accepted")
    return out


def S_ema_unknown(a: "cplx@nk", b: "cplx@nk", v: "unit"):
    return ["refused"] * 5


def H_owners(t: "param"):
    w, b = Mat("w"), Mat("b")(t)
    given = [Mat("a")(), b]
    s = StructureSE(given)
    s.append(Mat("c"))
    e = StructureSE()
    f = e | b
    g = StructureSE([Mat("a")()])
    other = StructureSE([b], solvent=w, ema="bruggeman", wavelength=500, reverse_structure=True)
    g |= other
    h = g | other
    return (
        len(given), len(s.data), len(e.data), len(f.data), f is e, f[0] is b,
        (g.solvent, g.ema, g.wavelength, g.reverse_structure, len(g.data)), (other.solvent is w, other.ema, len(other.data)),
        (h.solvent, h.ema, h.wavelength, h.reverse_structure, len(h.data)), other.data is g.data, given is s.data,
    )


def S_owners(t: "param"):
    return (
        2, 3, 0, 1, False, True, (None, "linear", None, False, 2), (True, "bruggeman", 1), (None, "linear", None, False, 3),
        False, False,
    )


def H_operands(t: "param", wl: "posreal@wl"):
    b, x, m = Mat("b")(t), Comp("x"), Mat("m")
    s = StructureSE([Mat("a")(), b], name="left", wavelength=wl)
    s2 = StructureSE([x, b], name="right")
    s3 = s | s2
    s4 = s | m
    n = (len(s.data), len(s2.data), s.name, s2.name, s.wavelength)
    s |= s2
    return (
        n, [c.name for c in s3.data], [c.name for c in s4.data], [c.name for c in s.data], [c.name for c in s2.data],
        s3[1] is b, s3[2] is x, s3[3] is b, s[2] is x, m.name, s.name, s.wavelength,
    )


def S_operands(t: "param", wl: "posreal@wl"):
    return (
        (2, 2, "left", "right", wl), ["mata", "matb", "x", "matb"], ["mata", "matb", "matm"], ["mata", "matb", "x", "matb"],
        ["x", "matb"], True, True, True, True, "matm", "left", wl,
    )


def H_make_slab(t: "param", r: "param", v: "param", a: "real", b: "real", c: "unit"):
    m = Mat("a")
    s = m(t, r, v)
    q = m(a, b, c)
    return (
        s.thick is t, s.rough is r, s.vfsolv is v, s.ri is m, s.name, isinstance(s, SlabSE),
        q.thick.value, q.rough.value, q.vfsolv.value, q.ri is m,
    )


def S_make_slab(t: "param", r: "param", v: "param", a: "real", b: "real", c: "unit"):
    return True, True, True, True, "mata", True, a, b, c, True
