"""What printing says (C22)."""
import numpy as np
from refellips.reflect_modelSE import ReflectModelSE
from refellips.structureSE import StructureSE, ScattererSE, SlabSE, MixedSlabSE
from refellips.dispersion import RI, Cauchy
from refellips.dataSE import DataSE
from refellips.objectiveSE import ObjectiveSE
from refnx.analysis import Parameters, Parameter
import vspec


class Mod:
    """any model"""

    def __init__(self, ps):
        self.parameters = Parameters(ps, name="mod")
        self._flip_delta = False

    def __call__(self, wavelength_aoi, p=None):
        v = [float(x) for x in self.parameters]
        return (
            vspec.UF("mod_psi", "arr", wavelength_aoi, v, self._flip_delta),
            vspec.UF("mod_delta", "arr", wavelength_aoi, v, self._flip_delta),
        )


def sel(x, mask):
    return x[mask] if len(x) > 0 else x


def H_t_data(X: "arr2:4,N", mask: "barr:N", nm: "str"):
    d = DataSE(X, name=nm)
    d.mask = mask
    return str(d), d.data, d.mask, len(d)


def S_t_data(X: "arr2:4,N", mask: "barr:N", nm: "str"):
    c = sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(X[3], mask)
    return f"<{nm}>, {len(c[0])} points", c, mask, len(c[0])


def H_t_file(f: "path@table.dat", nm: "str"):
    d = DataSE(f, name=nm)
    return str(d), d.filename is None


def S_t_file(f: "path@table.dat", nm: "str"):
    d = DataSE(f)
    return f"<{nm}>, {len(d.wavelength)} points", False


def H_t_ri(n: "real@nk", k: "real@kk", A: "param", B: "param", C: "param", wl: "posreal@wl"):
    return str(RI((n, k))), str(Cauchy(A, B, C, wavelength=wl))


def S_t_ri(n: "real@nk", k: "real@kk", A: "param", B: "param", C: "param", wl: "posreal@wl"):
    a = RI((n, k)).complex(None)
    b = Cauchy(A, B, C).complex(wl)
    return f"n: {a.real}, k: {a.imag}", f"n: {b.real}, k: {b.imag}"


def H_t_obj(X: "arr2:4,N", mask: "barr:N", ps: "params:k", nm: "str", on: "str"):
    d = DataSE(X, name=nm)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d, name=on)
    return str(o), vspec.STATE("value"), d.mask


def S_t_obj(X: "arr2:4,N", mask: "barr:N", ps: "params:k", nm: "str", on: "str"):
    d = DataSE(X, name=nm)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d, name=on)
    return "\n".join(
        [
            "_" * 80,
            f"Objective - {on}",
            f"Dataset = {nm}",
            f"datapoints = {o.npoints}",
            f"chi2 = {o.chisqr()}",
            f"Weighted = {o.weighted}",
            f"Transform = {o.transform}",
            str(o.parameters),
        ]
    ), vspec.STATE("value"), mask


def H_t_noname(X: "arr2:4,N", ps: "params:k", ln: "param"):
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    a = str(o)
    for p in ps:
        p.value = ln.value
    return a, str(o), vspec.STATE("value")


def S_t_noname(X: "arr2:4,N", ps: "params:k", ln: "param"):
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    n = len(X[0])
    a = said(o, f"<None>, {n} points")
    for p in ps:
        p.value = ln.value
    return a, said(o, f"<None>, {n} points"), vspec.STATE("value")


def said(o, what):
    return "\n".join(
        [
            "_" * 80,
            f"Objective - {o.name}",
            f"Dataset = {what}",
            f"datapoints = {o.npoints}",
            f"chi2 = {o.chisqr()}",
            f"Weighted = {o.weighted}",
            f"Transform = {o.transform}",
            str(o.parameters),
        ]
    )


def H_t_repr(X: "arr2:4,N", mask: "barr:N", ps: "params:k", nm: "str", wl: "posreal@wl"):
    d = DataSE(X, name=nm)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d, name=nm)
    s = StructureSE(wavelength=wl)
    s |= SlabSE(10, RI((1.5, 0.1)), 3)
    s |= MixedSlabSE(20, RI((1.5, 0.1)), RI((2.5, 0.2)), 0.25, 4)
    for x in (d, o, s, ReflectModelSE(s), s[0], s[1]):
        try:
            repr(x)
        except Exception:
            pass
    return d.data, d.mask, d.name, d.filename, o.name, s.wavelength, len(s), s[0].thick.value, s[1].vf_B.value, vspec.STATE("value")


def S_t_repr(X: "arr2:4,N", mask: "barr:N", ps: "params:k", nm: "str", wl: "posreal@wl"):
    c = sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(X[3], mask)
    return c, mask, nm, None, nm, wl, 2, 10, 0.25, vspec.STATE("value")


def H_t_mixed(th: "param", A: "param", B: "param", C: "param", vf: "param", rg: "param"):
    m = MixedSlabSE(th, Cauchy(A, B, C), RI((1.5, 0)), vf, rg, name="blend")
    a = str(m)
    return a, vspec.STATE("value")


def S_t_mixed(th: "param", A: "param", B: "param", C: "param", vf: "param", rg: "param"):
    m = MixedSlabSE(th, Cauchy(A, B, C), RI((1.5, 0)), vf, rg, name="blend")
    return str(m.parameters), vspec.STATE("value")
