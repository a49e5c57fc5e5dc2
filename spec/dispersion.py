"""Reference semantics of the dispersion laws (C07, C08, C09)."""
import glob
import os
import numpy as np
from scipy import fftpack as ft
from refellips.dispersion import RI, Cauchy, Sellmeier, Lorentz, Gauss, TaucLorentz, load_material
import refellips.dispersion
from refellips.structureSE import ScattererSE, nm_eV_conversion


def pick(wl, default):
    """an explicit wavelength overrides the default one"""
    return wl if np.any(wl) else default


HC = 1239.841984055


# -- Cauchy -----------------------------------------------------------------
def H_cauchy(A: "param", B: "param", C: "param", wl: "real@wl", dflt: "real@wl"):
    return Cauchy(A, B, C, wavelength=dflt).complex(wl)


def S_cauchy(A: "param", B: "param", C: "param", wl: "real@wl", dflt: "real@wl"):
    um = pick(wl, dflt) / 1000
    return A.value + B.value / um**2 + C.value / um**4 + 0j


def H_cauchy_none(A: "param", B: "param", C: "param", dflt: "real@wl"):
    c = Cauchy(A, B, C, wavelength=dflt)
    return c.complex(None), complex(c)


def S_cauchy_none(A: "param", B: "param", C: "param", dflt: "real@wl"):
    um = dflt / 1000
    v = A.value + B.value / um**2 + C.value / um**4 + 0j
    return v, complex(v)


def H_cauchy_arr(A: "param", B: "param", C: "param", wl: "posarr:n@wl"):
    return Cauchy(A, B, C).complex(wl)


def S_cauchy_arr(A: "param", B: "param", C: "param", wl: "posarr:n@wl"):
    um = pick(wl, 658) / 1000
    return A.value + B.value / um**2 + C.value / um**4 + 0j


def H_cauchy_dflt(A: "real", wl: "real@wl"):
    c = Cauchy(A)
    return c.complex(wl), [p.value for p in c.parameters], c.wavelength


def S_cauchy_dflt(A: "real", wl: "real@wl"):
    return A + 0j, [A, 0, 0], 658


def H_cauchy_par(A: "param", B: "param", C: "param", nm: "str"):
    c = Cauchy(A, B, C, name=nm)
    return list(c.parameters), c.name


def S_cauchy_par(A: "param", B: "param", C: "param", nm: "str"):
    return [A, B, C], nm


# -- Sellmeier --------------------------------------------------------------
def sell(Am, En, P, Einf, w):
    u = w * 1e-3
    return Einf.value + Am.value * u**2 / (u**2 - En.value**2) - P.value * u**2


def H_sell(Am: "param", En: "param", P: "param", Einf: "param", wl: "real@wl", dflt: "real@wl"):
    s = Sellmeier(Am, En, P, Einf=Einf, wavelength=dflt)
    return s.complex(wl)


def S_sell(Am: "param", En: "param", P: "param", Einf: "param", wl: "real@wl", dflt: "real@wl"):
    return np.sqrt(sell(Am, En, P, Einf, pick(wl, dflt))) + 0j


def H_sell_eps(Am: "param", En: "param", P: "param", Einf: "param", wl: "real@wl", dflt: "real@wl"):
    s = Sellmeier(Am, En, P, Einf=Einf, wavelength=dflt)
    return s.epsilon(wl), complex(s)


def S_sell_eps(Am: "param", En: "param", P: "param", Einf: "param", wl: "real@wl", dflt: "real@wl"):
    return (
        sell(Am, En, P, Einf, pick(wl, dflt)) + 0j,
        complex(np.sqrt(sell(Am, En, P, Einf, dflt)) + 0j),
    )


def H_sell_par(Am: "param", En: "param", P: "param", Einf: "param"):
    return list(Sellmeier(Am, En, P, Einf=Einf).parameters)


def S_sell_par(Am: "param", En: "param", P: "param", Einf: "param"):
    return [Am, En, P, Einf]


# -- Lorentz ----------------------------------------------------------------
def vals(ps):
    return np.array(ps)[:, None]


def chk(a, b, c):
    if not (len(a) == len(b) == len(c)):
        raise ValueError()


def H_lor_eps(A: "params:k", B: "params:k", E: "params:k", Einf: "param", en: "posarr:n"):
    return Lorentz(A, B, E, Einf=Einf).epsilon(en)


def S_lor_eps(A: "params:k", B: "params:k", E: "params:k", Einf: "param", en: "posarr:n"):
    chk(A, B, E)
    a, b, e = vals(A), vals(B), vals(E)
    return np.atleast_1d(np.sum(a / (e**2 - en**2 - 1j * b * en), axis=0) + Einf.value)


def lor1(A, B, E, Einf, w):
    en = HC / w
    return np.sqrt(A.value / (E.value**2 - en**2 - 1j * B.value * en) + Einf.value)


def H_lor_one(A: "param", B: "param", E: "param", Einf: "param", wl: "posreal@wl", dflt: "posreal@wl"):
    return Lorentz(A, B, E, Einf=Einf, wavelength=dflt).complex(wl)


def S_lor_one(A: "param", B: "param", E: "param", Einf: "param", wl: "posreal@wl", dflt: "posreal@wl"):
    return lor1(A, B, E, Einf, pick(wl, dflt))


def H_lor_none(A: "param", B: "param", E: "param", Einf: "param", dflt: "posreal@wl"):
    return Lorentz(A, B, E, Einf=Einf, wavelength=dflt).complex(None)


def S_lor_none(A: "param", B: "param", E: "param", Einf: "param", dflt: "posreal@wl"):
    return lor1(A, B, E, Einf, dflt)


def H_lor_par(A: "params:k", B: "params:k", E: "params:k", Einf: "param"):
    return Lorentz(A, B, E, Einf=Einf).parameters.flattened()


def S_lor_par(A: "params:k", B: "params:k", E: "params:k", Einf: "param"):
    chk(A, B, E)
    return list(A) + list(B) + list(E) + [Einf]


# -- Gauss ------------------------------------------------------------------
def H_gau_eps(A: "params:k", B: "params:k", E: "params:k", Einf: "param", en: "posarr:n"):
    return Gauss(A, B, E, Einf=Einf).epsilon(en)


def S_gau_eps(A: "params:k", B: "params:k", E: "params:k", Einf: "param", en: "posarr:n"):
    chk(A, B, E)
    a, b, e = vals(A), vals(B), vals(E)
    x = np.linspace(-20, 20, 2048)
    sig = b / 2 / np.sqrt(np.log(2))
    e2 = a * np.exp(-(((x - e) / sig) ** 2)) - a * np.exp(-(((x + e) / sig) ** 2))
    e1 = np.array([ft.hilbert(row) for row in e2])
    s1 = np.sum(e1, axis=0) + Einf.value
    s2 = np.sum(e2, axis=0)
    return np.atleast_1d(np.interp(en, x, s1) + 1j * np.interp(en, x, s2))


def H_gau_par(A: "params:k", B: "params:k", E: "params:k", Einf: "param"):
    return Gauss(A, B, E, Einf=Einf).parameters.flattened()


def S_gau_par(A: "params:k", B: "params:k", E: "params:k", Einf: "param"):
    chk(A, B, E)
    return list(A) + list(B) + list(E) + [Einf]


# -- Tauc-Lorentz -----------------------------------------------------------
def tl(A, C, E0, Eg, Einf, e):
    """Jellison & Modine, Appl. Phys. Lett. 69, 371 (1996) and erratum"""
    al2 = 4 * E0**2 - C**2
    al = np.sqrt(al2)
    ga = np.sqrt(E0**2 - C**2 / 2)
    aln = (Eg**2 - E0**2) * e**2 + Eg**2 * C**2 - E0**2 * (E0**2 + 3 * Eg**2)
    aat = (e**2 - E0**2) * (E0**2 + Eg**2) + Eg**2 * C**2
    z4 = (e**2 - ga**2) ** 2 + 0.25 * al**2 * C**2
    t1 = A * C * aln / (2 * np.pi * z4 * al * E0) * np.log((E0**2 + Eg**2 + al * Eg) / (E0**2 + Eg**2 - al * Eg))
    t2 = A / np.pi * aat / (z4 * E0) * (np.pi - np.arctan((2 * Eg + al) / C) + np.arctan((al - 2 * Eg) / C))
    t3 = 2 * A * E0 * Eg * (e**2 - ga**2) / (np.pi * z4 * al) * (np.pi + 2 * np.arctan(2 * (ga**2 - Eg**2) / al / C))
    t4 = A * E0 * C * (e**2 + Eg**2) / (np.pi * z4 * e) * np.log(np.abs(e - Eg) / (e + Eg))
    t5 = 2 * A * E0 * C * Eg / (np.pi * z4) * np.log(
        np.abs(e - Eg) * (e + Eg) / np.sqrt((E0**2 - Eg**2) ** 2 + Eg**2 * C**2)
    )
    e1 = np.sum(t1 - t2 + t3 - t4 + t5, axis=0) + Einf
    e2 = np.sum(
        A * E0 * C * (e - Eg) ** 2 / (e * ((e**2 - E0**2) ** 2 + (C * e) ** 2)) * np.heaviside(e - Eg, 0),
        axis=0,
    )
    return np.atleast_1d(e1 + 1j * e2)


def H_tl_eps(A: "params:k", C: "params:k", E: "params:k", Eg: "param", Einf: "param", en: "posarr:n"):
    return TaucLorentz(A, C, E, Eg, Einf=Einf).epsilon(en)


def S_tl_eps(A: "params:k", C: "params:k", E: "params:k", Eg: "param", Einf: "param", en: "posarr:n"):
    chk(A, C, E)
    return tl(vals(A), vals(C), vals(E), Eg.value, Einf.value, en)


def H_tl_par(A: "params:k", C: "params:k", E: "params:k", Eg: "param", Einf: "param"):
    return TaucLorentz(A, C, E, Eg, Einf=Einf).parameters.flattened()


def S_tl_par(A: "params:k", C: "params:k", E: "params:k", Eg: "param", Einf: "param"):
    chk(A, C, E)
    return list(A) + list(C) + list(E) + [Einf, Eg]


# -- nm <-> eV --------------------------------------------------------------
def H_ev(x: "posreal"):
    return nm_eV_conversion(x)


def S_ev(x: "posreal"):
    return HC / x


# -- RI tables --------------------------------------------------------------
def H_ri_const(n: "real@nk", k: "real", wl: "real@wl", dflt: "real@wl"):
    r = RI([n, k], wavelength=dflt)
    return r.complex(wl), r.complex(None), complex(r)


def S_ri_const(n: "real@nk", k: "real", wl: "real@wl", dflt: "real@wl"):
    v = n + 1j * k
    return v, v, complex(v)


def H_ri_table(w: "posarr:n@um", n: "arr:n@nk", k: "arr:n", wl: "posreal@wl", dflt: "posreal@wl"):
    return RI((w, n, k), wavelength=dflt).complex(wl)


def S_ri_table(w: "posarr:n@um", n: "arr:n@nk", k: "arr:n", wl: "posreal@wl", dflt: "posreal@wl"):
    x = w * 1000
    y, z = n, k
    if np.size(x) > 1:
        o = np.argsort(x)
        x, y, z = x[o], y[o], z[o]
    p = pick(wl, dflt)
    if np.any(x):
        return np.interp(p, x, y) + 1j * np.interp(p, x, z)
    return y + 1j * z


def H_ri_file(path: "path@tables/my_glass.csv,a.b.csv,glass.csv,dir.x/y.csv", nm: "str", wl: "posreal@wl"):
    r = RI(path, name=nm)
    return r.complex(wl), r.name


def S_ri_file(path: "path@tables/my_glass.csv,a.b.csv,glass.csv,dir.x/y.csv", nm: "str", wl: "posreal@wl"):
    v = np.loadtxt(path, skiprows=1, delimiter=",", encoding="utf8").T
    x = v[0] * 1000
    y = v[1]
    z = v[2] if len(v) == 3 else np.zeros_like(v[0])
    if np.size(x) > 1:
        o = np.argsort(x)
        x, y, z = x[o], y[o], z[o]
    p = pick(wl, 658)
    name = nm if len(nm) else os.path.basename(path).split(".")[0]
    if np.any(x):
        return np.interp(p, x, y) + 1j * np.interp(p, x, z), name
    return y + 1j * z, name


def H_ri_params(n: "real@nk", k: "real@kk", nm: "str"):
    r = RI([n, k], name=nm)
    return list(r.parameters), r.name, r.wavelength


def S_ri_params(n: "real@nk", k: "real@kk", nm: "str"):
    return [], nm, 658


# -- materials made from plain numbers: every number becomes a listed parameter -------
def floats(x):
    return [float(p) for p in x.parameters.flattened()]


def has(x, *ps):
    f = x.parameters.flattened()
    return [f[i] is p for i, p in enumerate(ps)]


def H_num_par(a: "real", b: "real", c: "real", d: "real", e: "real"):
    x1, x2, x3 = Cauchy(a, b, c), Sellmeier(a, b, c, d), Lorentz(a, b, c, d)
    x4, x5 = Gauss(a, b, c, d), TaucLorentz(a, b, c, d, e)
    return (
        [floats(x) for x in (x1, x2, x3, x4, x5)],
        has(x1, x1.A, x1.B, x1.C),
        has(x2, x2.Am, x2.En, x2.P, x2.Einf),
        has(x3, x3.Am[0], x3.Br[0], x3.En[0], x3.Einf),
        has(x4, x4.Am[0], x4.Br[0], x4.En[0], x4.Einf),
        has(x5, x5.Am[0], x5.C[0], x5.En[0], x5.Einf, x5.Eg),
    )


def S_num_par(a: "real", b: "real", c: "real", d: "real", e: "real"):
    return (
        [[a, b, c], [a, b, c, d], [a, b, c, d], [a, b, c, d], [a, b, c, e, d]],
        [True] * 3, [True] * 4, [True] * 4, [True] * 4, [True] * 5,
    )


def H_num_default(a: "real", b: "real", c: "real", d: "real"):
    return [floats(x) for x in (Cauchy(a), Sellmeier(a, b, c), Lorentz(a, b, c), Gauss(a, b, c), TaucLorentz(a, b, c, d))], [
        x.wavelength for x in (Cauchy(a), Sellmeier(a, b, c), Lorentz(a, b, c), Gauss(a, b, c), TaucLorentz(a, b, c, d))
    ]


def S_num_default(a: "real", b: "real", c: "real", d: "real"):
    return [[a, 0, 0], [a, b, c, 1], [a, b, c, 1], [a, b, c, 1], [a, b, c, 1, d]], [658] * 5


# a mixture of numbers and parameters, given as sequences
def H_mix_par(a: "real", b: "param", c: "real", d: "real", e: "param", f: "param", g: "param"):
    x = Lorentz([a, b], [c, d], [e, f], g)
    y = Gauss([a, b], [c, d], [e, f], g)
    z = TaucLorentz([a, b], [c, d], [e, f], g)
    return (
        [floats(q) for q in (x, y, z)],
        [q.parameters.flattened()[1] is b and q.parameters.flattened()[4] is e and q.parameters.flattened()[5] is f for q in (x, y, z)],
        [x.parameters.flattened()[6] is g, y.parameters.flattened()[6] is g, z.parameters.flattened()[7] is g],
    )


def S_mix_par(a: "real", b: "param", c: "real", d: "real", e: "param", f: "param", g: "param"):
    v = [a, b.value, c, d, e.value, f.value]
    return [v + [g.value], v + [g.value], v + [1, g.value]], [True] * 3, [True] * 3


# -- oscillators as refractive indices, at an array of wavelengths -----------------------
def H_osc_arr(A: "params:k", B: "params:k", E: "params:k", Eg: "param", Einf: "param", wl: "posarr:n@wl", dflt: "posreal@wl"):
    return (
        Lorentz(A, B, E, Einf=Einf, wavelength=dflt).complex(wl),
        Gauss(A, B, E, Einf=Einf, wavelength=dflt).complex(wl),
        TaucLorentz(A, B, E, Eg, Einf=Einf, wavelength=dflt).complex(wl),
    )


def S_osc_arr(A: "params:k", B: "params:k", E: "params:k", Eg: "param", Einf: "param", wl: "posarr:n@wl", dflt: "posreal@wl"):
    chk(A, B, E)
    w = wl if np.any(wl) else dflt
    return (
        np.sqrt(Lorentz(A, B, E, Einf=Einf).epsilon(HC / w)),
        np.sqrt(Gauss(A, B, E, Einf=Einf).epsilon(HC / w)),
        np.sqrt(TaucLorentz(A, B, E, Eg, Einf=Einf).epsilon(HC / w)),
    )


def H_osc_scalar(A: "params:k", B: "params:k", E: "params:k", Eg: "param", Einf: "param", wl: "posreal@wl", dflt: "posreal@wl"):
    return (
        Gauss(A, B, E, Einf=Einf, wavelength=dflt).complex(wl),
        TaucLorentz(A, B, E, Eg, Einf=Einf, wavelength=dflt).complex(wl),
        Gauss(A, B, E, Einf=Einf, wavelength=dflt).complex(None),
        TaucLorentz(A, B, E, Eg, Einf=Einf, wavelength=dflt).complex(None),
    )


def S_osc_scalar(A: "params:k", B: "params:k", E: "params:k", Eg: "param", Einf: "param", wl: "posreal@wl", dflt: "posreal@wl"):
    chk(A, B, E)
    w = wl if np.any(wl) else dflt
    g, t = Gauss(A, B, E, Einf=Einf), TaucLorentz(A, B, E, Eg, Einf=Einf)
    return np.sqrt(g.epsilon(HC / w)), np.sqrt(t.epsilon(HC / w)), np.sqrt(g.epsilon(HC / dflt)), np.sqrt(t.epsilon(HC / dflt))


# -- bundled materials -------------------------------------------------------------
def H_material(m: "str@silica,gold,air,nonsense,Silica,sil,GOLD,silico", wl: "posreal@wl"):
    r = load_material(m)
    return r.complex(wl), r.complex(None), r.name


def S_material(m: "str@silica,gold,air,nonsense,Silica,sil,GOLD,silico", wl: "posreal@wl"):
    here = os.path.dirname(os.path.abspath(refellips.dispersion.__file__))
    if m not in [os.path.basename(f)[:-4] for f in glob.glob(os.path.join(here, "materials", "*.csv"))]:
        raise ValueError()
    r = RI(os.path.join(here, "materials", m + ".csv"))
    return r.complex(wl), r.complex(None), r.name


def H_material_own(wl: "posreal@wl"):
    a = load_material("silica")
    a.complex(wl)
    a.wavelength = wl
    a.name = "mine"
    b = load_material("silica")
    return b.wavelength, b.name, b is a


def S_material_own(wl: "posreal@wl"):
    return 658, "silica", False


def table(w, n, k, p):
    x = w * 1000
    y, z = n, k
    if np.size(x) > 1:
        o = np.argsort(x)
        x, y, z = x[o], y[o], z[o]
    return np.interp(p, x, y) + 1j * np.interp(p, x, z)


def H_ri_arr(w: "posarr:2@um", n: "arr:2@nk", k: "arr:2", wl: "posarr:m@wl", one: "posreal@wl", dflt: "posreal@wl"):
    r = RI((w, n, k), wavelength=dflt)
    first = r.complex(one)
    return (first, r.complex(wl) if np.any(wl) else None, r.complex(None), complex(r), r.complex(one), r.wavelength)


def S_ri_arr(w: "posarr:2@um", n: "arr:2@nk", k: "arr:2", wl: "posarr:m@wl", one: "posreal@wl", dflt: "posreal@wl"):
    def at(p):
        return table(w, n, k, p) if np.any(w * 1000) else n + 1j * k
    x = at(pick(one, dflt))
    return x, at(wl) if np.any(wl) else None, at(dflt), complex(at(dflt)), x, dflt


# -- earlier evaluations do not matter --------------------------------------------------
def five(A, B, C, D, E, w):
    return [
        Cauchy(A, B, C, wavelength=w), Sellmeier(A, B, C, D, wavelength=w), Lorentz([A], [B], [C], D, wavelength=w),
        Gauss(A, B, C, D, wavelength=w), TaucLorentz(A, B, C, D, E, wavelength=w),
    ]


def H_again(
    A: "param", B: "param", C: "param", D: "param", E: "param", a: "real", b: "real", c: "real", d: "real", e: "real",
    w1: "posreal@wl", w2: "posreal@wl", w3: "posreal@wl",
):
    ms = five(A, B, C, D, E, w1)
    for m in ms:
        m.complex(None)
        m.complex(w2)
    out = []
    for p, x in ((A, a), (B, b), (C, c), (D, d), (E, e)):
        p.value = x
        out.append([m.complex(w2) for m in ms])
    for m in ms:
        m.wavelength = w3
    return out, [m.complex(w1) for m in ms], [m.complex(None) for m in ms]


def S_again(
    A: "param", B: "param", C: "param", D: "param", E: "param", a: "real", b: "real", c: "real", d: "real", e: "real",
    w1: "posreal@wl", w2: "posreal@wl", w3: "posreal@wl",
):
    out = []
    for p, x in ((A, a), (B, b), (C, c), (D, d), (E, e)):
        p.value = x
        out.append([m.complex(w2) for m in five(A, B, C, D, E, w1)])
    ns = five(A, B, C, D, E, w3)
    return out, [m.complex(w1) for m in ns], [m.complex(None) for m in ns]
