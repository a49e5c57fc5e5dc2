"""Reference semantics of the generative model (C01, C03, C04, C09, C10)."""
import numpy as np
from refellips.reflect_modelSE import ReflectModelSE
from refellips.structureSE import StructureSE, ScattererSE, SlabSE, MixedSlabSE, ComponentSE
from refellips.dispersion import RI, Cauchy
from refnx.analysis import Parameters, Parameter
from ref_tmm import ref_psi_delta
import vspec


class Stack(StructureSE):
    """any user defined sample: an arbitrary stack at every wavelength"""

    def __init__(self, pars=None):
        super().__init__()
        self._p = Parameters(name="stack")
        if pars is not None:
            self._p.extend(pars)

    @property
    def parameters(self):
        return self._p

    def slabs(self, **kwds):
        return stack(self.wavelength, self._p)


def stack(wl, p=()):
    return vspec.UF("stack", "arr2", wl, [float(x) for x in p])


def ref_rows(d, off, flip, p=()):
    """every row gets the value of its own wavelength, angle and stack"""
    wl = d[:, 0]
    aoi = d[:, 1]
    psi = np.zeros(len(wl))
    delta = np.zeros(len(wl))
    for w in np.unique(wl):
        here = wl == w
        a, b = ref_psi_delta(aoi[here], stack(w, p)[:, :4], w, off.value, flip)
        psi[here] = a
        delta[here] = b
    return psi, delta


def H_rows(d: "arr2:N,2@wl,aoi", off: "param", flip: "bool"):
    m = ReflectModelSE(Stack(), delta_offset=off)
    m._flip_delta = flip
    return m(d)


def S_rows(d: "arr2:N,2@wl,aoi", off: "param", flip: "bool"):
    return ref_rows(d, off, flip)


def H_rows_int(d: "narr2:N,2@wl,aoi", off: "param"):
    m = ReflectModelSE(Stack(), delta_offset=off)
    return m.model(d)


def S_rows_int(d: "narr2:N,2@wl,aoi", off: "param"):
    return ref_rows(d, off, False)


# the same structure evaluated before at other wavelengths and angles
def H_history(d: "arr2:N,2@wl,aoi", e: "arr2:M,2@wl,aoi", off: "param", flip: "bool"):
    m = ReflectModelSE(Stack(), delta_offset=off)
    m._flip_delta = flip
    m(e)
    return m(d)


def S_history(d: "arr2:N,2@wl,aoi", e: "arr2:M,2@wl,aoi", off: "param", flip: "bool"):
    m = ReflectModelSE(Stack(), delta_offset=off)
    m._flip_delta = flip
    m(e)
    return ref_rows(d, off, flip)


# parameter values handed to a call are assigned first: delta offset, then the sample
def H_withp(d: "arr2:N,2@wl,aoi", p: "arr:np1", off: "param", ps: "params:np", flip: "bool"):
    m = ReflectModelSE(Stack(ps), delta_offset=off)
    m._flip_delta = flip
    return m(d, p)


def S_withp(d: "arr2:N,2@wl,aoi", p: "arr:np1", off: "param", ps: "params:np", flip: "bool"):
    m = ReflectModelSE(Stack(ps), delta_offset=off)
    Parameters([off] + list(ps)).pvals = np.array(p)
    return ref_rows(d, off, flip, ps)


def H_mpars(off: "param", ps: "params", qs: "params"):
    s = Stack(ps)
    m = ReflectModelSE(s, delta_offset=off)
    a = list(m.parameters.flattened())
    s._p.extend(qs)
    b = list(m.parameters.flattened())
    t = Stack(qs)
    m.structure = t
    c = list(m.parameters.flattened())
    return a, b, c, m.structure is t, m.delta_offset is off


def S_mpars(off: "param", ps: "params", qs: "params"):
    return [off] + list(ps), [off] + list(ps) + list(qs), [off] + list(qs), True, True


def H_mreject(x: "real"):
    s = Stack()
    out = []
    try:
        ReflectModelSE(x)
        out.append("accepted")
    except ValueError:
        out.append("rejected")
    m = ReflectModelSE(s)
    try:
        m.structure = x
        out.append("accepted")
    except ValueError:
        out.append("rejected")
    return out, m.structure is s


def S_mreject(x: "real"):
    return ["rejected", "rejected"], True


def H_mdefault(d: "arr2:N,2@wl,aoi", ps: "params"):
    m = ReflectModelSE(Stack(ps))
    return m(d), float(m.delta_offset), list(m.parameters.flattened())[1:], list(m.parameters.flattened())[0] is m.delta_offset


def S_mdefault(d: "arr2:N,2@wl,aoi", ps: "params"):
    return ref_rows(d, Parameter(0.0), False, ps), 0.0, list(ps), True


class Constrained(Stack):
    """a sample with a log-probability of its own"""

    def logp(self):
        return vspec.UF("stack_logp", "real", 1)


def H_mnumber(d: "arr2:N,2@wl,aoi", x: "real", nm: "str"):
    m = ReflectModelSE(Constrained(), delta_offset=x, name=nm)
    return m(d), float(m.delta_offset), m.name, m.logp()


def S_mnumber(d: "arr2:N,2@wl,aoi", x: "real", nm: "str"):
    return ref_rows(d, Parameter(x), False), x, nm, vspec.UF("stack_logp", "real", 1)


# parameters, offset, convention and sample may all change between two evaluations
def H_history_par(d: "arr2:N,2@wl,aoi", off: "param", ps: "params:K", v: "arr:K", x: "real", flip: "bool"):
    m = ReflectModelSE(Stack(ps), delta_offset=off)
    m(d)
    for q, y in zip(ps, v):
        q.value = y
    off.value = x
    m._flip_delta = flip
    return m(d)


def S_history_par(d: "arr2:N,2@wl,aoi", off: "param", ps: "params:K", v: "arr:K", x: "real", flip: "bool"):
    m = ReflectModelSE(Stack(ps), delta_offset=off)
    m(d)
    for q, y in zip(ps, v):
        q.value = y
    off.value = x
    return ref_rows(d, off, flip, ps)


def H_history_sample(d: "arr2:N,2@wl,aoi", off: "param", ps: "params", qs: "params"):
    m = ReflectModelSE(Stack(ps), delta_offset=off)
    m(d)
    m.structure = Stack(qs)
    return m(d)


def S_history_sample(d: "arr2:N,2@wl,aoi", off: "param", ps: "params", qs: "params"):
    m = ReflectModelSE(Stack(ps), delta_offset=off)
    m(d)
    return ref_rows(d, off, False, qs)


# the sample's parameters may be replaced after the model was made and used
def H_swapped(d: "arr2:N,2@wl,aoi", p: "arr:np1", off: "param", ps: "params:np", qs: "params:np"):
    s = Stack(ps)
    m = ReflectModelSE(s, delta_offset=off)
    m(d)
    s._p = Parameters(list(qs))
    a = list(m.parameters.flattened())
    return a, m(d, p)


def S_swapped(d: "arr2:N,2@wl,aoi", p: "arr:np1", off: "param", ps: "params:np", qs: "params:np"):
    ref_rows(d, off, False, ps)
    Parameters([off] + list(qs)).pvals = np.array(p)
    return [off] + list(qs), ref_rows(d, off, False, qs)


def H_swapped_p(d: "arr2:N,2@wl,aoi", p: "arr:np1", off: "param", ps: "params:np", qs: "params:np"):
    s = Stack(ps)
    m = ReflectModelSE(s, delta_offset=off)
    m(d)
    s._p = Parameters(list(qs))
    return m(d, p)


def S_swapped_p(d: "arr2:N,2@wl,aoi", p: "arr:np1", off: "param", ps: "params:np", qs: "params:np"):
    ref_rows(d, off, False, ps)
    Parameters([off] + list(qs)).pvals = np.array(p)
    return ref_rows(d, off, False, qs)


# a component of a sample may be exchanged for another
def H_exchanged(off: "param", t: "param", u: "param", r: "param", A: "param", B: "param"):
    s = StructureSE([RI([1.0, 0.0])(), Cauchy(A)(t, r), RI([3.8, 0.01])()])
    m = ReflectModelSE(s, delta_offset=off)
    a = list(m.parameters.flattened())
    s[1] = Cauchy(B)(u, r)
    b = list(m.parameters.flattened())
    return len(a) == len(b), u in b, B in b, off in b, r in b


def S_exchanged(off: "param", t: "param", u: "param", r: "param", A: "param", B: "param"):
    return True, True, True, True, True
