"""Reference semantics of profiles and plots (C18): what is drawn, and that looking changes nothing."""
import numpy as np
from refellips.reflect_modelSE import ReflectModelSE
from refellips.structureSE import StructureSE, ScattererSE, SlabSE, ComponentSE
from refellips.dataSE import DataSE
from refellips.objectiveSE import ObjectiveSE
from plottools_pkg.plottools import plot_structure, plot_ellipsdata
from refnx.analysis import Parameters, Parameter
from refnx.reflect.structure import sld_profile
import vspec


class Ax:
    """a canvas that remembers what is drawn on it"""

    def __init__(self):
        self.lines = []
        self.points = []
        self.xlabel = None
        self.ylabel = None
        self.twin = None
        self.names = None
        self.transAxes = None
        self.labels = []
        self.texts = []

    def gca(self):
        return self

    def twinx(self):
        self.twin = Ax()
        return self.twin

    def plot(self, x, y, **kws):
        self.lines.append([np.array(x), np.array(y)])
        if "label" in kws:
            self.labels.append(kws["label"])

    def scatter(self, x, y, **kws):
        self.points.append([np.array(x), np.array(y)])
        return [np.array(x), np.array(y)]

    def set(self, **kws):
        if "xlabel" in kws:
            self.xlabel = kws["xlabel"]
        if "ylabel" in kws:
            self.ylabel = kws["ylabel"]

    def set_xlabel(self, s, **kws):
        self.xlabel = s

    def set_ylabel(self, s, **kws):
        self.ylabel = s

    def legend(self, handles=None, labels=None, **kws):
        self.names = [handles, labels]

    def text(self, x, y, s, **kws):
        self.texts.append(s)


class Mat(ScattererSE):
    def __init__(self, tag):
        super().__init__(name="mat" + tag, wavelength=500)
        self.tag = tag
        self._p = Parameters(name=tag)

    @property
    def parameters(self):
        return self._p

    def complex(self, wavelength):
        return vspec.UF("n_of", "cplx", self.tag, wavelength)


class Sample(StructureSE):
    """any sample between two slabs: an arbitrary stack"""

    def __init__(self, ps=None, fail=False):
        super().__init__()
        self.append(Mat("a")(0, 0))
        self.append(Mat("b")(0, 0))
        self.fail = fail
        self._p = Parameters(name="sample")
        if ps is not None:
            self._p.extend(ps)

    @property
    def parameters(self):
        return self._p

    def slabs(self, **kwds):
        if self.fail:
            vspec.MAYFAIL()
        if "wavelength" in kwds:
            self.wavelength = float(kwds["wavelength"])
        return stack(self.wavelength, self.reverse_structure, self._p)


def stack(wl, rev, p=()):
    return vspec.UF("stack", "arr2", wl, rev, [float(x) for x in p])


class Mod:
    """any model"""

    def __init__(self, ps):
        self.parameters = Parameters(ps, name="mod")
        self._flip_delta = False

    def __call__(self, wavelength_aoi, p=None):
        return pred(wavelength_aoi, self.parameters, self._flip_delta)


def pred(wa, ps, flip):
    v = [float(x) for x in ps]
    return vspec.UF("mod_psi", "arr", wa, v, flip), vspec.UF("mod_delta", "arr", wa, v, flip)


def sel(x, mask):
    return x[mask] if len(x) > 0 else x


# -- refractive index profile ---------------------------------------------------
def H_profile(wl: "posreal@wl", rev: "bool", align: "int", dz: "posreal"):
    s = Sample()
    s.wavelength = wl
    s.reverse_structure = rev
    return s.ri_profile(align=align, max_delta_z=dz), s.wavelength, s.reverse_structure


def ref_profile(sl, z, dz, align):
    if len(sl) < 2:
        raise ValueError()
    zed, n = sld_profile(sl, z=z, max_delta_z=dz)
    if align != 0:
        if align >= len(sl) - 1 or align < -len(sl):
            raise RuntimeError()
        d = np.array(sl)
        d[0, 0] = 0
        d[-1, 0] = 0
        if align >= 0:
            zed = zed - np.sum(d[: align + 1, 0])
        else:
            zed = zed - np.sum(d[:align, 0])
    return zed, n


def S_profile(wl: "posreal@wl", rev: "bool", align: "int", dz: "posreal"):
    return ref_profile(stack(wl, bool(rev)), None, dz, align), wl, bool(rev)


def H_profile_own(dz: "posreal"):
    s = Sample()
    return s.ri_profile(max_delta_z=dz), s.wavelength


def S_profile_own(dz: "posreal"):
    return ref_profile(stack(None, False), None, dz, 0), None


def H_profile_z(z: "arr", wl: "posreal@wl"):
    s = Sample()
    s.wavelength = wl
    return s.ri_profile(z)


def S_profile_z(z: "arr", wl: "posreal@wl"):
    return ref_profile(stack(wl, False), z, None, 0)


class Sample3(Sample):
    """any sample of three slabs, its parameters sampled"""

    def __init__(self, ps=None, fail=False):
        super().__init__(None, fail)
        self._p = Sampled(name="sample")
        if ps is not None:
            self._p.extend(ps)

    def slabs(self, **kwds):
        if self.fail:
            vspec.MAYFAIL()
        return stack3(self.wavelength, self.reverse_structure, self._p)


class Sampled(Parameters):
    """parameters that have been sampled: any values for those that vary"""

    def pgen(self, ngen=1000, nburn=0, nthin=1):
        n = self.nvary()
        for i in range(ngen):
            yield np.array([vspec.UF("pg", "real", i, j, nburn, nthin) for j in range(n)])


def stack3(wl, rev, p=()):
    v = [float(x) for x in p]
    return np.array([[vspec.UF("s3", "real", i, j, wl, rev, v) for j in range(5)] for i in range(3)])


# -- plot_structure: the structure is left as it was, whatever happens ------------
def H_pstruct(wl: "posreal@wl", rev: "bool", want: "bool"):
    s = Sample3()
    s.wavelength = wl
    s.reverse_structure = rev
    ax = Ax()
    plot_structure(ax, structure=s, reverse_structure=want)
    return ax.lines, ax.xlabel, ax.ylabel, s.wavelength, s.reverse_structure


def S_pstruct(wl: "posreal@wl", rev: "bool", want: "bool"):
    z, n = ref_profile(stack3(658, bool(want)), None, None, 0)
    return [[z, n]], "Distance from substrate (Å)", "Refractive index", wl, bool(rev)


def H_pstruct_fail(wl: "posreal@wl", rev: "bool", want: "bool"):
    s = Sample3(None, True)
    s.wavelength = wl
    s.reverse_structure = rev
    try:
        plot_structure(Ax(), structure=s, reverse_structure=want)
    except BaseException:
        pass
    return s.wavelength, s.reverse_structure


def S_pstruct_fail(wl: "posreal@wl", rev: "bool", want: "bool"):
    return wl, bool(rev)


def H_pstruct_obj(X: "arr2:4,N", ps: "params", wl: "posreal@wl", rev: "bool", want: "bool"):
    s = Sample3(ps)
    s.wavelength = wl
    s.reverse_structure = rev
    d = DataSE(X)
    o = ObjectiveSE(ReflectModelSE(s), d)
    ax = Ax()
    plot_structure(ax, objective=o, reverse_structure=want)
    return ax.lines, s.wavelength, s.reverse_structure, vspec.STATE("value")


def S_pstruct_obj(X: "arr2:4,N", ps: "params", wl: "posreal@wl", rev: "bool", want: "bool"):
    w = np.unique(X[0])
    if len(w) > 8:
        w = np.linspace(np.min(w), np.max(w), 6)
    out = []
    for i in range(len(w)):
        z, n = ref_profile(stack3(w[i], bool(want), ps), None, None, 0)
        out.append([z, n])
    return out, wl, bool(rev), vspec.STATE("value")


def H_pstruct_mask(X: "arr2:4,N", mask: "barr:N", ps: "params", wl: "posreal@wl", rev: "bool", want: "bool"):
    s = Sample3(ps)
    s.wavelength = wl
    s.reverse_structure = rev
    d = DataSE(X)
    d.mask = mask
    o = ObjectiveSE(ReflectModelSE(s), d)
    ax = Ax()
    plot_structure(ax, objective=o, reverse_structure=want)
    return ax.lines, s.wavelength, s.reverse_structure, vspec.STATE("value")


def S_pstruct_mask(X: "arr2:4,N", mask: "barr:N", ps: "params", wl: "posreal@wl", rev: "bool", want: "bool"):
    w = np.unique(sel(X[0], mask))
    if len(w) > 8:
        w = np.linspace(np.min(w), np.max(w), 6)
    out = []
    for i in range(len(w)):
        z, n = ref_profile(stack3(w[i], bool(want), ps), None, None, 0)
        out.append([z, n])
    return out, wl, bool(rev), vspec.STATE("value")


# -- StructureSE.plot -----------------------------------------------------------------
def H_splot(ps: "params:k", n: "posint", align: "int"):
    s = Sample3(ps)
    ax = Ax()
    try:
        s.plot(samples=n, fig=ax, align=align)
    except RuntimeError:
        return None, vspec.STATE("value")
    return ax.lines[-1], ax.xlabel, ax.ylabel, vspec.STATE("value")


def S_splot(ps: "params:k", n: "posint", align: "int"):
    q = Parameters(ps)
    q.pvals = np.array(q)
    st = vspec.STATE("value")
    try:
        z, m = ref_profile(stack3(None, False, ps), None, None, align)
    except RuntimeError:
        return None, st
    return [z, m], "z / $\\AA$", "$RI$", st


def H_splot_fail(ps: "params:k", n: "posint", wl: "posreal@wl", rev: "bool"):
    s = Sample3(ps, True)
    s.wavelength = wl
    s.reverse_structure = rev
    try:
        s.plot(samples=n, fig=Ax())
    except BaseException:
        pass
    return s.wavelength, s.reverse_structure, vspec.STATE("value")


def S_splot_fail(ps: "params:k", n: "posint", wl: "posreal@wl", rev: "bool"):
    q = Parameters(ps)
    q.pvals = np.array(q)
    return wl, bool(rev), vspec.STATE("value")


class NoEnds(Sample):
    """a stack that does not begin (or end) with a slab"""

    def __init__(self, first):
        super().__init__()
        if first:
            self.insert(0, Piece())
        else:
            self.append(Piece())


class Piece(ComponentSE):
    def __init__(self):
        super().__init__()

    @property
    def parameters(self):
        return Parameters(name="piece")

    def slabs(self, structure=None):
        return vspec.UF("piece", "arr2")


def H_profile_ends(wl: "posreal@wl"):
    out = []
    for first in (True, False):
        s = NoEnds(first)
        s.wavelength = wl
        try:
            s.ri_profile()
            out.append(True)
        except ValueError:
            out.append(False)
    return out


def S_profile_ends(wl: "posreal@wl"):
    return [False, False]


# -- ObjectiveSE.plot -------------------------------------------------------------------
def H_oplot(X: "arr2:4,N", ps: "params:k", flip: "bool", byaoi: "bool"):
    o = ObjectiveSE(Mod(ps), DataSE(X, reflect_delta=flip))
    ax = Ax()
    o.plot(xaxis="aoi" if byaoi else "wavelength", fig=ax)
    return ax.lines, ax.points, ax.xlabel, ax.ylabel, ax.names, ax.twin.lines, ax.twin.points, ax.twin.ylabel, vspec.STATE("value")


def fold(d, flip):
    if flip:
        d = np.where(d > 180, 360 - d, d)
    return d


def ref_oplot(X, ps, flip, byaoi):
    a, b = [], []
    q = fold(X[3], flip)
    if byaoi:
        g = np.linspace(np.min(X[1]), np.max(X[1]))
        x = X[1]
        lab = "AOI (°)"
        for w in np.unique(X[0]):
            p, d = pred(np.c_[np.ones_like(g) * w, g], ps, flip)
            a.append([g, p])
            b.append([g, d])
    else:
        g = np.linspace(np.min(X[0]), np.max(X[0]))
        x = X[0]
        lab = "Wavelength (nm)"
        for w in np.unique(X[1]):
            p, d = pred(np.c_[g, np.ones_like(g) * w], ps, flip)
            a.append([g, p])
            b.append([g, d])
    return a, [[x, X[2]]], lab, "Psi", [[[x, X[2]], [x, q]], ["Psi", "Delta"]], b, [[x, q]], "Delta", vspec.STATE("value")


def S_oplot(X: "arr2:4,N", ps: "params:k", flip: "bool", byaoi: "bool"):
    return ref_oplot(X, ps, bool(flip), byaoi)


def H_oplot0(X: "arr2:4,N", ps: "params:k"):
    o = ObjectiveSE(Mod(ps), DataSE(X))
    ax = Ax()
    o.plot(fig=ax)
    return ax.lines, ax.points, ax.xlabel, ax.ylabel, ax.names, ax.twin.lines, ax.twin.points, ax.twin.ylabel, vspec.STATE("value")


def S_oplot0(X: "arr2:4,N", ps: "params:k"):
    if len(np.unique(X[1])) > 1:
        return ref_oplot(X, ps, False, True)
    return ref_oplot(X, ps, False, False)


def H_oplot_mask(X: "arr2:4,N", mask: "barr:N", ps: "params:k", byaoi: "bool"):
    d = DataSE(X)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d)
    ax, bx = Ax(), Ax()
    o.plot(xaxis="aoi" if byaoi else "wavelength", plot_labels=False, fig=ax)
    plot_ellipsdata(bx, objective=o, xaxis="aoi" if byaoi else "wavelength", plot_labels=False, legend=False)
    return (
        ax.lines, ax.points, ax.twin.lines, ax.twin.points, ax.xlabel, ax.ylabel, ax.twin.ylabel,
        bx.lines, bx.points, bx.twin.lines, bx.twin.points, bx.xlabel, bx.ylabel, bx.twin.ylabel, bx.names,
    )


def S_oplot_mask(X: "arr2:4,N", mask: "barr:N", ps: "params:k", byaoi: "bool"):
    Y = [sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(X[3], mask)]
    r = ref_oplot(Y, ps, False, byaoi)
    t = ref_pdata(Y, ps, False, byaoi)
    return (
        r[0], r[1], r[5], r[6], None, None, None,
        t[0], t[1], t[5], t[6], None, None, None, None,
    )


# -- plot_ellipsdata ------------------------------------------------------------------------
def H_pdata(X: "arr2:4,N", ps: "params:k", flip: "bool", byaoi: "bool"):
    o = ObjectiveSE(Mod(ps), DataSE(X, reflect_delta=flip))
    ax, res = Ax(), Ax()
    plot_ellipsdata(ax, objective=o, xaxis="aoi" if byaoi else "wavelength", resax=res)
    return ax.lines, ax.points, ax.xlabel, ax.ylabel, ax.names, ax.twin.lines, ax.twin.points, ax.twin.ylabel, res.points, res.texts, vspec.STATE("value")


def ref_pdata(X, ps, flip, byaoi):
    a, b = [], []
    q = fold(X[3], flip)
    if byaoi:
        g = np.linspace(np.min(X[1]) - 5, np.max(X[1]) + 5)
        x = X[1]
        lab = "AOI (°)"
        for w in np.unique(X[0]):
            p, d = pred(np.c_[np.ones_like(g) * w, g], ps, flip)
            a.append([g, p])
            b.append([g, d])
    else:
        g = np.linspace(np.min(X[0]) - 50, np.max(X[0]) + 50)
        x = X[0]
        lab = "Wavelength (nm)"
        p, d = pred(np.c_[g, X[1][0] * np.ones_like(g)], ps, flip)
        a.append([g, p])
        b.append([g, d])
    return a, [[x, X[2]]], lab, "Psi", [[[x, X[2]], [x, q]], ["Psi", "Delta"]], b, [[x, q]], "Delta"


def S_pdata(X: "arr2:4,N", ps: "params:k", flip: "bool", byaoi: "bool"):
    flip = bool(flip)
    o = ObjectiveSE(Mod(ps), DataSE(X, reflect_delta=flip))
    r = o.residuals()
    n = int(len(r) / 2)
    x = X[1] if byaoi else X[0]
    return ref_pdata(X, ps, flip, byaoi) + (
        [[x, r[:n]], [x, r[n:]]], ["$\\chi^2 = $" + f"{np.round(o.chisqr(), 3)}"], vspec.STATE("value"),
    )


def H_pdata_own(X: "arr2:4,N", ps: "params:k", flip: "bool", withmodel: "bool"):
    d = DataSE(X, reflect_delta=flip)
    m = Mod(ps)
    ax = Ax()
    if withmodel:
        plot_ellipsdata(ax, d, m)
    else:
        plot_ellipsdata(ax, data=d)
    return ax.lines, ax.points, ax.xlabel, ax.ylabel, ax.twin.lines, ax.twin.points, ax.twin.ylabel, vspec.STATE("value")


def S_pdata_own(X: "arr2:4,N", ps: "params:k", flip: "bool", withmodel: "bool"):
    a, b = [], []
    q = fold(X[3], bool(flip))
    if withmodel:
        g = np.linspace(np.min(X[1]) - 5, np.max(X[1]) + 5)
        for w in np.unique(X[0]):
            p, d = pred(np.c_[np.ones_like(g) * w, g], ps, False)
            a.append([g, p])
            b.append([g, d])
    return a, [[X[1], X[2]]], "AOI (°)", "Psi", b, [[X[1], q]], "Delta", vspec.STATE("value")


def refused(f, *args, **kwds):
    try:
        f(Ax(), *args, **kwds)
    except AssertionError:
        return True
    return False


def H_preject(X: "arr2:4,N", ps: "params:k"):
    d = DataSE(X)
    m = Mod(ps)
    o = ObjectiveSE(m, d)
    s = Sample3()
    return [
        refused(plot_ellipsdata),
        refused(plot_ellipsdata, model=m),
        refused(plot_ellipsdata, data=d, objective=o),
        refused(plot_ellipsdata, model=m, objective=o),
        refused(plot_ellipsdata, data=d, xaxis="time"),
        refused(plot_ellipsdata, data=d, resax=Ax()),
        refused(plot_structure),
        refused(plot_structure, objective=o, structure=s),
        refused(plot_structure, structure=s),
    ]


def S_preject(X: "arr2:4,N", ps: "params:k"):
    return [True, True, True, True, True, True, True, True, False]


def H_pstruct_default(wl: "posreal@wl", rev: "bool"):
    s = Sample3()
    s.wavelength = wl
    s.reverse_structure = rev
    ax = Ax()
    plot_structure(ax, None, s)
    return ax.lines, s.wavelength, s.reverse_structure


def S_pstruct_default(wl: "posreal@wl", rev: "bool"):
    z, n = ref_profile(stack3(658, False), None, None, 0)
    return [[z, n]], wl, bool(rev)


def H_pstruct_unset(X: "arr2:4,N", rev: "bool"):
    s = Sample3()
    s.reverse_structure = rev
    t = Sample3()
    o = ObjectiveSE(ReflectModelSE(t), DataSE(X))
    ax, bx = Ax(), Ax()
    plot_structure(ax, None, s, plot_labels=False)
    plot_structure(bx, o)
    return ax.labels, bx.labels, ax.xlabel, ax.ylabel, s.wavelength, s.reverse_structure, t.wavelength, t.reverse_structure


def S_pstruct_unset(X: "arr2:4,N", rev: "bool"):
    w = np.unique(X[0])
    if len(w) > 8:
        w = np.linspace(np.min(w), np.max(w), 6)
    names = []
    for i in range(len(w)):
        names.append(f"{w[i]} nm")
    return ["658 nm"], names, None, None, None, bool(rev), None, False


def H_splot_pvals(ps: "params:K", v: "arr:K"):
    s = Sample3(ps)
    ax = Ax()
    s.plot(pvals=v, fig=ax)
    return ax.lines, vspec.STATE("value")


def S_splot_pvals(ps: "params:K", v: "arr:K"):
    q = Parameters(ps)
    q.pvals = v
    z, m = ref_profile(stack3(None, False, ps), None, None, 0)
    return [[z, m]], vspec.STATE("value")


def H_splot_all(ps: "params:K", n: "posint"):
    s = Sample3(ps)
    ax = Ax()
    s.plot(samples=n, fig=ax, align=-1)
    return ax.lines


def S_splot_all(ps: "params:K", n: "posint"):
    q = Sampled(ps)
    sv = np.array(q)
    out = []
    for v in q.pgen(ngen=n):
        q.pvals = v
        z, m = ref_profile(stack3(None, False, ps), None, None, -1)
        out.append([z, m])
    q.pvals = sv
    z, m = ref_profile(stack3(None, False, ps), None, None, -1)
    out.append([z, m])
    return out


# -- a real sample is left as it was by everything that looks at it ----------------------
def film(t0, t1, t2, r1, r2, v, u):
    return StructureSE([Mat("a")(t0, 0), Mat("b")(t1, r1, v), Mat("c")(50, u, 0.25), Mat("d")(t2, r2)])


def kept(s):
    return [[c.thick.value, c.rough.value, c.vfsolv.value, c.name, c.interfaces] for c in s], len(s), s.solvent, s.ema, s.depolarisation_factor, s.contract, s.name, s.reverse_structure


def H_keep_profile(t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", u: "param", wl: "posreal@wl", rev: "bool", align: "int"):
    s = film(t0, t1, t2, r1, r2, v, u)
    s.wavelength = wl
    s.reverse_structure = rev
    out = []
    for a in (0, align, -1, 1):
        try:
            s.ri_profile(align=a)
        except RuntimeError:
            pass
        out.append([kept(s), s.wavelength])
    return out, vspec.STATE("value")


def S_keep_profile(t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", u: "param", wl: "posreal@wl", rev: "bool", align: "int"):
    s = film(t0, t1, t2, r1, r2, v, u)
    s.wavelength = wl
    s.reverse_structure = rev
    return [[kept(s), s.wavelength]] * 4, vspec.STATE("value")


def H_keep_plot(t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", u: "param", wl: "posreal@wl", rev: "bool"):
    s = film(t0, t1, t2, r1, r2, v, u)
    s.wavelength = wl
    s.reverse_structure = rev
    s.plot(fig=Ax(), align=1)
    plot_structure(Ax(), structure=s, reverse_structure=True)
    return kept(s), s.wavelength, vspec.STATE("value")


def S_keep_plot(t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", u: "param", wl: "posreal@wl", rev: "bool"):
    s = film(t0, t1, t2, r1, r2, v, u)
    s.wavelength = wl
    s.reverse_structure = rev
    return kept(s), s.wavelength, vspec.STATE("value")
