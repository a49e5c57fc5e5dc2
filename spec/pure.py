"""Calls leave their arguments alone and hand out results of the caller's own (C20); objects are independent (C21).

Both are relational: the reference runs the same code on arguments of its own, once."""
import numpy as np
from refellips.reflect_modelSE import ReflectModelSE, coh_tmm, Delta_Psi_TMM
from refellips.structureSE import StructureSE, ScattererSE, SlabSE, MixedSlabSE, ComponentSE, overall_ri
from refellips.dispersion import RI, Cauchy, Sellmeier, Lorentz, Gauss, TaucLorentz, load_material
from refellips.dataSE import DataSE, custom_round
from refellips.objectiveSE import ObjectiveSE, circular_distance
from refnx.analysis import Parameters, Parameter
import vspec


class Mat(ScattererSE):
    """any material"""

    def __init__(self, tag):
        super().__init__(name="mat" + tag, wavelength=500)
        self.tag = tag
        self._p = Parameters(name=tag)

    @property
    def parameters(self):
        return self._p

    def complex(self, wavelength):
        return vspec.UF("n_of", "cplx", self.tag, wavelength)


class Keeper(ComponentSE):
    """a component that hands out the array it keeps"""

    def __init__(self, x):
        super().__init__()
        self.x = x
        self._p = Parameters(name="keeper")

    @property
    def parameters(self):
        return self._p

    def slabs(self, structure=None):
        return self.x


class Kept(StructureSE):
    """a sample that hands out the array it keeps"""

    def __init__(self, x, ps=None):
        super().__init__()
        self.append(Mat("a")(0, 0))
        self.append(Mat("b")(0, 0))
        self.x = x
        self._p = Parameters(name="kept")
        if ps is not None:
            self._p.extend(ps)

    @property
    def parameters(self):
        return self._p

    def slabs(self, **kwds):
        return self.x


class Mod:
    """any model"""

    def __init__(self, ps):
        self.parameters = Parameters(ps, name="mod")
        self._flip_delta = False

    def __call__(self, wavelength_aoi, p=None):
        v = [float(x) for x in self.parameters]
        return (
            vspec.UF("mod_psi", "arr", wavelength_aoi, v, self._flip_delta),
            vspec.UF("mod_delta", "arr", wavelength_aoi, v, self._flip_delta),
        )

    def logp(self):
        return vspec.UF("mod_logp", "real", [float(x) for x in self.parameters])


def own(x):
    return np.array(x)


# -- transfer matrix ------------------------------------------------------------
def H_p_tmm(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl", v: "real"):
    r = coh_tmm(n, d, th, lam)
    for k in ("r_s", "r_p", "t_s", "t_p"):
        r[k][:] = v
    q = coh_tmm(n, d, th, lam)
    coh_tmm(n, d, th, 2 * lam)
    return own(n), own(d), own(th), q["r_s"], q["r_p"], q["t_s"], q["t_p"]


def S_p_tmm(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl", v: "real"):
    q = coh_tmm(own(n), own(d), own(th), lam)
    return n, d, th, q["r_s"], q["r_p"], q["t_s"], q["t_p"]


def H_p_psidelta(aoi: "arr:N@aoi", layers: "arr2:L,4@layers", lam: "posreal@wl", off: "real", flip: "bool", v: "real"):
    a, b = Delta_Psi_TMM(aoi, layers, lam, off, reflect_delta=flip)
    a[:] = v
    b[:] = v
    r = Delta_Psi_TMM(aoi, layers, lam, off, reflect_delta=flip)
    Delta_Psi_TMM(aoi, layers, 2 * lam, off, reflect_delta=flip)
    return own(aoi), own(layers), r


def S_p_psidelta(aoi: "arr:N@aoi", layers: "arr2:L,4@layers", lam: "posreal@wl", off: "real", flip: "bool", v: "real"):
    return aoi, layers, Delta_Psi_TMM(own(aoi), own(layers), lam, off, reflect_delta=flip)


# -- the model: the rows asked for, the parameter values and the sample's own slabs -----
def H_p_model(d: "arr2:N,2@wl,aoi", x: "arr2:L,5@layers", off: "param", ps: "params:np", p: "arr:np1", flip: "bool", v: "real"):
    m = ReflectModelSE(Kept(x, ps), delta_offset=off)
    m._flip_delta = flip
    a, b = m(d, p)
    a[:] = v
    b[:] = v
    return own(d), own(x), own(p), m(d)


def S_p_model(d: "arr2:N,2@wl,aoi", x: "arr2:L,5@layers", off: "param", ps: "params:np", p: "arr:np1", flip: "bool", v: "real"):
    m = ReflectModelSE(Kept(own(x), ps), delta_offset=off)
    m._flip_delta = flip
    return d, x, p, m(own(d), own(p))


# -- slabs -----------------------------------------------------------------------------
def H_p_slabs(x: "arr2:N,5", wl: "posreal@wl", t: "param", u: "real", rev: "bool"):
    k = Keeper(x)
    s = StructureSE([Mat("a")(0, 0), Mat("b")(t, 1, 0.5), k, Mat("c")(0, 3)])
    s.wavelength = wl
    s.reverse_structure = rev
    r = s.slabs()
    r[:] = u
    one = s[1].slabs(s)
    one[:] = u
    r, one = s.slabs(), s[1].slabs(s)
    t.value = u
    s.slabs()
    s[1].slabs(s)
    return own(x), r, one


def S_p_slabs(x: "arr2:N,5", wl: "posreal@wl", t: "param", u: "real", rev: "bool"):
    k = Keeper(own(x))
    s = StructureSE([Mat("a")(0, 0), Mat("b")(t, 1, 0.5), k, Mat("c")(0, 3)])
    s.wavelength = wl
    s.reverse_structure = rev
    r, one = s.slabs(), s[1].slabs(s)
    t.value = u
    return x, r, one


def H_p_mixed(t: "param", r: "param", f: "param", wl: "posreal@wl", u: "real"):
    m = MixedSlabSE(t, Mat("a"), Mat("b"), f, r)
    s = StructureSE([Mat("a")(0, 0), m, Mat("c")(0, 3)])
    s.wavelength = wl
    c = m.slabs(s)
    c[:] = u
    c = m.slabs(s)
    t.value = u
    m.slabs(s)
    return c


def S_p_mixed(t: "param", r: "param", f: "param", wl: "posreal@wl", u: "real"):
    m = MixedSlabSE(t, Mat("a"), Mat("b"), f, r)
    s = StructureSE([Mat("a")(0, 0), m, Mat("c")(0, 3)])
    s.wavelength = wl
    c = m.slabs(s)
    t.value = u
    return c


def H_p_ema(a: "carr:n@nk", b: "carr:n@nk", v: "arr:n@unit", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit", u: "real"):
    r = overall_ri(a, b, vf_B=v, ema=ema, depolarisation_factor=L)
    r[:] = u
    return own(a), own(b), own(v), overall_ri(a, b, vf_B=v, ema=ema, depolarisation_factor=L)


def S_p_ema(a: "carr:n@nk", b: "carr:n@nk", v: "arr:n@unit", ema: "str@linear,maxwell-garnett,bruggeman", L: "unit", u: "real"):
    return a, b, v, overall_ri(own(a), own(b), vf_B=own(v), ema=ema, depolarisation_factor=L)


# -- dispersion ------------------------------------------------------------------------
def H_p_table(w: "posarr:3@um", n: "arr:3@nk", k: "arr:3", wl: "posarr:m@wl", u: "real"):
    r = RI((w, n, k))
    before = own(w), own(n), own(k)
    w[:] = u
    n[:] = u
    k[:] = u
    c = r.complex(wl)
    c[:] = u
    return before, own(wl), r.complex(wl)


def S_p_table(w: "posarr:3@um", n: "arr:3@nk", k: "arr:3", wl: "posarr:m@wl", u: "real"):
    out = (own(w), own(n), own(k)), wl, RI((own(w), own(n), own(k))).complex(own(wl))
    w[:] = u
    n[:] = u
    k[:] = u
    return out


def H_p_laws(A: "param", B: "param", C: "param", D: "param", E: "param", wl: "posarr:m@wl", u: "real"):
    out = []
    for mat in (Cauchy(A, B, C), Sellmeier(A, B, C, D)):
        c = mat.complex(wl)
        c[:] = u
        out.append(mat.complex(wl))
    return own(wl), out


def S_p_laws(A: "param", B: "param", C: "param", D: "param", E: "param", wl: "posarr:m@wl", u: "real"):
    return wl, [Cauchy(A, B, C).complex(own(wl)), Sellmeier(A, B, C, D).complex(own(wl))]


def H_p_osc(A: "params:k", B: "params:k", E: "params:k", Eg: "param", Einf: "param", en: "posarr:m", wl: "posarr:m@wl", u: "real"):
    out = []
    for mat in (Lorentz(A, B, E, Einf), TaucLorentz(A, B, E, Eg, Einf), Gauss(A, B, E, Einf)):
        c = mat.epsilon(en)
        c[:] = u
        c = mat.complex(wl)
        c[:] = u
        out.append([mat.epsilon(en), mat.complex(wl)])
    return own(en), own(wl), out


def S_p_osc(A: "params:k", B: "params:k", E: "params:k", Eg: "param", Einf: "param", en: "posarr:m", wl: "posarr:m@wl", u: "real"):
    out = []
    for mat in (Lorentz(A, B, E, Einf), TaucLorentz(A, B, E, Eg, Einf), Gauss(A, B, E, Einf)):
        out.append([mat.epsilon(own(en)), mat.complex(own(wl))])
    return en, wl, out


# -- the objective ---------------------------------------------------------------------
def H_p_obj(X: "arr2:4,N", ps: "params:K", p: "arr:K", u: "real", flip: "bool"):
    o = ObjectiveSE(Mod(ps), DataSE(X, reflect_delta=flip))
    r = o.residuals(p)
    r[:] = u
    return own(X), own(p), o.data.data, o.residuals()


def S_p_obj(X: "arr2:4,N", ps: "params:K", p: "arr:K", u: "real", flip: "bool"):
    o = ObjectiveSE(Mod(ps), DataSE(own(X), reflect_delta=flip))
    o.setp(own(p))
    return X, p, DataSE(X, reflect_delta=flip).data, o.residuals()


def H_p_calls(X: "arr2:4,N", ps: "params:K", p: "arr:K", flip: "bool"):
    o = ObjectiveSE(Mod(ps), DataSE(X, reflect_delta=flip))
    o.setp(p)
    out = [o.chisqr(p), o.logp(p), o.logpost(p), o.nll(p), o.nlpost(p)]
    return out, own(X), own(p), o.data.data, o.data.mask


def S_p_calls(X: "arr2:4,N", ps: "params:K", p: "arr:K", flip: "bool"):
    o = ObjectiveSE(Mod(ps), DataSE(own(X), reflect_delta=flip))
    o.setp(own(p))
    out = [o.chisqr(own(p)), o.logp(own(p)), o.logpost(own(p)), o.nll(own(p)), o.nlpost(own(p))]
    d = DataSE(X, reflect_delta=flip)
    return out, X, p, d.data, d.mask


def H_p_prior(ps: "params:K", q: "arr:K", u: "real"):
    o = ObjectiveSE(Mod(ps), DataSE())
    r = o.prior_transform(q)
    r[:] = u
    return own(q), o.prior_transform(q)


def S_p_prior(ps: "params:K", q: "arr:K", u: "real"):
    return q, ObjectiveSE(Mod(ps), DataSE()).prior_transform(own(q))


def H_p_circ(a: "arr:N@delta", b: "arr:N@delta2", u: "real"):
    r = circular_distance(a, b)
    r[:] = u
    return own(a), own(b), circular_distance(a, b)


def S_p_circ(a: "arr:N@delta", b: "arr:N@delta2", u: "real"):
    return a, b, circular_distance(own(a), own(b))


# -- the data --------------------------------------------------------------------------
def H_p_views(X: "arr2:4,N", mask: "barr:N", u: "real"):
    if len(mask) == 0:
        return None
    d = DataSE(X)
    d.mask = mask
    for x in (d.wavelength, d.aoi, d.psi, d.delta):
        x[:] = u
    for x in d.data:
        x[:] = u
    for w, a, p, q in d.unique_wavelength_data():
        a[:] = u
        p[:] = u
        q[:] = u
    return own(X), own(mask), d.data, list(d.unique_wavelength_data())


def S_p_views(X: "arr2:4,N", mask: "barr:N", u: "real"):
    if len(mask) == 0:
        return None
    d = DataSE(own(X))
    d.mask = own(mask)
    return X, mask, d.data, list(d.unique_wavelength_data())


def H_p_round(x: "arr:N", b: "posreal", u: "real"):
    r = custom_round(x, b)
    r[:] = u
    return own(x), custom_round(x, b)


def S_p_round(x: "arr:N", b: "posreal", u: "real"):
    return x, custom_round(own(x), b)


# -- objects built separately are independent (C21) ------------------------------------
def nk(m, wl):
    return m.complex(wl)


def shake(m, x):
    """use a material and change everything about it that can be changed"""
    m.complex(x)
    for p in m.parameters.flattened():
        p.value = x
    m.wavelength = x
    m.complex(x)


def H_i_laws(a: "real", b: "real", c: "real", d: "real", x: "posreal@wl", wl: "posreal@wl"):
    one = [Cauchy(a, b, c), Sellmeier(a, b, c, d), RI((a, b))]
    two = [Cauchy(b, c, d), Sellmeier(d, c, b, a), RI((c, d))]
    for m in two:
        shake(m, x)
    return [nk(m, wl) for m in one], [m.wavelength for m in one], [nk(m, None) for m in one], [[p.value for p in m.parameters] for m in one]


def S_i_laws(a: "real", b: "real", c: "real", d: "real", x: "posreal@wl", wl: "posreal@wl"):
    one = [Cauchy(a, b, c), Sellmeier(a, b, c, d), RI((a, b))]
    return [nk(m, wl) for m in one], [m.wavelength for m in one], [nk(m, None) for m in one], [[p.value for p in m.parameters] for m in one]


def H_i_osc(a: "real", b: "real", c: "real", d: "real", x: "posreal@wl", en: "posarr:m"):
    one = [Lorentz(a, b, c, d), Gauss(a, b, c, d), TaucLorentz(a, b, c, d, 1)]
    two = [Lorentz(b, c, d, a), Gauss([b, a], [c, a], [d, a], a), TaucLorentz(b, c, d, a, 1)]
    for m in two:
        m.epsilon(en)
        for p in m.parameters.flattened():
            p.value = x
        m.wavelength = x
        m.epsilon(en)
    return [m.epsilon(en) for m in one], [m.wavelength for m in one], [[p.value for p in m.parameters.flattened()] for m in one]


def S_i_osc(a: "real", b: "real", c: "real", d: "real", x: "posreal@wl", en: "posarr:m"):
    one = [Lorentz(a, b, c, d), Gauss(a, b, c, d), TaucLorentz(a, b, c, d, 1)]
    return [m.epsilon(en) for m in one], [m.wavelength for m in one], [[p.value for p in m.parameters.flattened()] for m in one]


def H_i_tables(w: "posarr:3@um", n: "arr:3@nk", k: "arr:3", j: "arr:3@nk", x: "posreal@wl", wl: "posreal@wl"):
    a = RI((w, n, k))
    b = RI((w, j, k))
    shake(b, x)
    return nk(a, wl), a.wavelength


def S_i_tables(w: "posarr:3@um", n: "arr:3@nk", k: "arr:3", j: "arr:3@nk", x: "posreal@wl", wl: "posreal@wl"):
    a = RI((w, n, k))
    return nk(a, wl), a.wavelength


def H_i_slabs(t: "real", r: "real", v: "unit", x: "real", y: "unit", wl: "posreal@wl"):
    m = Mat("m")
    a = m(t, r, v)
    b = m(x, r, v)
    c = m(t, r, v)
    d = MixedSlabSE(t, m, Mat("n"), v, r)
    e = MixedSlabSE(t, m, Mat("n"), v, r)
    for q in (b, c, e):
        for p in q.parameters.flattened():
            p.value = y
    s = StructureSE()
    s.wavelength = wl
    return a.slabs(s), d.slabs(s), [p.value for p in a.parameters.flattened()], [p.value for p in d.parameters.flattened()]


def S_i_slabs(t: "real", r: "real", v: "unit", x: "real", y: "unit", wl: "posreal@wl"):
    m = Mat("m")
    a = m(t, r, v)
    d = MixedSlabSE(t, m, Mat("n"), v, r)
    s = StructureSE()
    s.wavelength = wl
    return a.slabs(s), d.slabs(s), [p.value for p in a.parameters.flattened()], [p.value for p in d.parameters.flattened()]


def H_i_struct(t: "param", wl: "posreal@wl", wl2: "posreal@wl"):
    a, b, c = Mat("a"), Mat("b"), Mat("c")
    s = StructureSE()
    s |= a
    s |= b(t, 1, 0.5)
    s |= c(0, 2)
    s.wavelength = wl
    u = StructureSE()
    u |= c
    u |= b(t, 1, 0.2)
    u |= a
    u |= c(0, 1)
    u.wavelength = wl2
    u.ema = "bruggeman"
    u.depolarisation_factor = 0.25
    u.reverse_structure = True
    u.solvent = c
    u.contract = 1
    u.slabs()
    w = a | b(t, 1, 0.4) | c(1, 2)
    w.wavelength = wl2
    w.slabs()
    return s.slabs(), s.wavelength, s.ema, s.depolarisation_factor, s.reverse_structure, s.solvent is None, s.contract, len(s), len(StructureSE())


def S_i_struct(t: "param", wl: "posreal@wl", wl2: "posreal@wl"):
    a, b, c = Mat("a"), Mat("b"), Mat("c")
    s = StructureSE()
    s |= a
    s |= b(t, 1, 0.5)
    s |= c(0, 2)
    s.wavelength = wl
    return s.slabs(), s.wavelength, s.ema, s.depolarisation_factor, s.reverse_structure, s.solvent is None, s.contract, len(s), 0


# two models: of different samples, and of the same sample
def H_i_models(d: "arr2:N,2@wl,aoi", e: "arr2:M,2@wl,aoi", x: "arr2:L,5@layers", y: "arr2:L,5@layers", f: "real", g: "real", flip: "bool", ps: "params", qs: "params"):
    s = Kept(x, ps)
    m = ReflectModelSE(s, delta_offset=f)
    k = ReflectModelSE(Kept(y, qs), delta_offset=g)
    k._flip_delta = flip
    k(e)
    h = ReflectModelSE(s, delta_offset=g)
    h._flip_delta = flip
    h(e)
    k.delta_offset.value = f
    h.delta_offset.value = g + 1
    return m(d), m.delta_offset.value, m._flip_delta, list(m.parameters.flattened())[1:], m.structure is s


def S_i_models(d: "arr2:N,2@wl,aoi", e: "arr2:M,2@wl,aoi", x: "arr2:L,5@layers", y: "arr2:L,5@layers", f: "real", g: "real", flip: "bool", ps: "params", qs: "params"):
    s = Kept(x, ps)
    k = ReflectModelSE(Kept(y, qs), delta_offset=g)
    k._flip_delta = flip
    k(e)
    h = ReflectModelSE(s, delta_offset=g)
    h._flip_delta = flip
    h(e)
    m = ReflectModelSE(s, delta_offset=f)
    return m(d), f, False, list(ps), True


# two objectives: of different data, and of the same data with different models
def H_i_objs(X: "arr2:4,N", Y: "arr2:4,M", mask: "barr:M", ps: "params", qs: "params", flip: "bool"):
    d = DataSE(X)
    o = ObjectiveSE(Mod(ps), d)
    e = DataSE(Y, reflect_delta=flip)
    u = ObjectiveSE(Mod(qs), e)
    u.residuals()
    e.mask = mask
    u.chisqr()
    w = ObjectiveSE(Mod(qs), d)
    w.residuals()
    w.weighted = True
    w.lnsigma = 1
    w.logp_extra = None
    return o.residuals(), o.chisqr(), o.npoints, list(o.parameters.flattened()), o.model._flip_delta, o.lnsigma, d.data, d.mask


def S_i_objs(X: "arr2:4,N", Y: "arr2:4,M", mask: "barr:M", ps: "params", qs: "params", flip: "bool"):
    d = DataSE(X)
    o = ObjectiveSE(Mod(ps), d)
    return o.residuals(), o.chisqr(), o.npoints, list(o.parameters.flattened()), o.model._flip_delta, o.lnsigma, d.data, d.mask


def H_i_data(X: "arr2:4,N", Y: "arr2:4,M", mask: "barr:M", v: "real", nm: "str"):
    d = DataSE(X)
    e = DataSE(Y, name=nm, reflect_delta=True, time=v)
    e.mask = mask
    e.metadata["position"] = v
    e.delimiter = ","
    f = DataSE()
    f.data = Y
    f.metadata["time"] = v
    return d.data, d.mask, d.name, d._delta_flipped, d.metadata, d.delimiter, d.filename, DataSE().metadata


def S_i_data(X: "arr2:4,N", Y: "arr2:4,M", mask: "barr:M", v: "real", nm: "str"):
    d = DataSE(X)
    return d.data, d.mask, d.name, d._delta_flipped, d.metadata, d.delimiter, d.filename, {}


def H_i_material(x: "posreal@wl", wl: "posreal@wl"):
    a = load_material("silica")
    shake(load_material("gold"), x)
    b = load_material("silica")
    shake(b, x)
    return nk(a, wl), a.wavelength, a.name


def S_i_material(x: "posreal@wl", wl: "posreal@wl"):
    a = load_material("silica")
    return nk(a, wl), a.wavelength, a.name


# -- evaluating a sample leaves its parameters and settings alone ------------------------
def film(t0, t1, t2, r1, r2, v, f):
    return StructureSE([Mat("a")(t0, 0), Mat("b")(t1, r1, v), MixedSlabSE(t1, Mat("b"), Mat("c"), f, r1), Mat("d")(t2, r2)])


def kept(s):
    return [s[0].thick.value, s[1].thick.value, s[1].rough.value, s[1].vfsolv.value, s[2].thick.value, s[2].vf_B.value, s[2].rough.value, s[3].thick.value, s[3].rough.value,
            len(s), s.solvent, s.ema, s.depolarisation_factor, s.contract, s.name, s.reverse_structure]


def H_k_slabs(t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", f: "param", wl: "posreal@wl", rev: "bool"):
    s = film(t0, t1, t2, r1, r2, v, f)
    s.reverse_structure = rev
    out = []
    for ema in ("linear", "maxwell-garnett", "bruggeman"):
        s.ema = ema
        s.slabs(wavelength=wl)
        s.slabs()
        out.append(kept(s))
    return out, vspec.STATE("value")


def S_k_slabs(t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", f: "param", wl: "posreal@wl", rev: "bool"):
    s = film(t0, t1, t2, r1, r2, v, f)
    s.reverse_structure = rev
    out = []
    for ema in ("linear", "maxwell-garnett", "bruggeman"):
        s.ema = ema
        out.append(kept(s))
    return out, vspec.STATE("value")


def H_k_model(d: "arr2:N,2@wl,aoi", t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", f: "param", off: "param", rev: "bool", flip: "bool"):
    s = film(t0, t1, t2, r1, r2, v, f)
    s.reverse_structure = rev
    m = ReflectModelSE(s, delta_offset=off)
    m._flip_delta = flip
    try:
        m(d)
    except AssertionError:
        pass
    return kept(s), m.delta_offset.value, m._flip_delta, vspec.STATE("value")


def S_k_model(d: "arr2:N,2@wl,aoi", t0: "param", t1: "param", t2: "param", r1: "param", r2: "param", v: "param", f: "param", off: "param", rev: "bool", flip: "bool"):
    s = film(t0, t1, t2, r1, r2, v, f)
    s.reverse_structure = rev
    m = ReflectModelSE(s, delta_offset=off)
    m._flip_delta = flip
    return kept(s), m.delta_offset.value, m._flip_delta, vspec.STATE("value")


def H_k_objective(X: "arr2:4,N@wl,aoi,psi,delta", mask: "barr:N", ps: "params:K", sg: "param", w: "bool", flip: "bool"):
    d = DataSE(X, reflect_delta=flip)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d, lnsigma=sg, use_weights=w)
    try:
        o.logpost()
    except RuntimeError:
        pass
    o.logp()
    o.chisqr()
    o.residuals()
    o.varying_parameters()
    return [float(p) for p in o.parameters.flattened()], d.data, own(d.mask), d._wavelength, d._delta, o.weighted, vspec.STATE("value"), vspec.STATE("vary")


def S_k_objective(X: "arr2:4,N@wl,aoi,psi,delta", mask: "barr:N", ps: "params:K", sg: "param", w: "bool", flip: "bool"):
    d = DataSE(X, reflect_delta=flip)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d, lnsigma=sg, use_weights=w)
    return [float(p) for p in o.parameters.flattened()], d.data, own(d.mask), d._wavelength, d._delta, o.weighted, vspec.STATE("value"), vspec.STATE("vary")


def named(a, b, c, d, wl):
    """one material of every kind, and things made of them, all with the same name"""
    ms = [
        Cauchy(a, b, c, wavelength=wl, name="film"),
        Sellmeier(a, b, c, d, wavelength=wl, name="film"),
        RI((a, b), wavelength=wl, name="film"),
        Lorentz(a, b, c, d, wavelength=wl, name="film"),
        TaucLorentz(a, b, c, d, 1, wavelength=wl, name="film"),
    ]
    s = StructureSE(name="film", wavelength=wl)
    s |= ms[0](d, c, b)
    s |= SlabSE(a, ms[1], b, name="film", vfsolv=0)
    s |= MixedSlabSE(a, ms[0], ms[2], b, c, name="film")
    return ms, s, ReflectModelSE(s, delta_offset=d, name="film"), DataSE([[a], [b], [c], [d]], name="film", batch=a)


def told(ms, s, m, d):
    return (
        [x.wavelength for x in ms],
        [[p.value for p in x.parameters.flattened()] for x in ms],
        [x.name for x in ms],
        nk(ms[0], None),
        nk(ms[2], None),
        s.wavelength,
        s.reverse_structure,
        len(s),
        [[p.value for p in x.parameters.flattened()] for x in s],
        m.delta_offset.value,
        [p.value for p in m.parameters.flattened()],
        m.structure is s,
        d.data,
        d.metadata,
        d.mask,
    )


def H_i_names(a: "real", b: "real", c: "real", d: "real", e: "real", f: "real", x: "posreal@wl", wl: "posreal@wl"):
    ms, s, m, k = named(e, f, e, f, x)
    told(ms, s, m, k)
    s.reverse_structure = True
    s |= ms[0](1, 2)
    k.mask[:] = False
    one = named(a, b, c, d, wl)
    for y in ms:
        y.wavelength = e
        for p in y.parameters.flattened():
            p.value = f
    for p in m.parameters.flattened():
        p.value = e
    k.metadata["batch"] = e
    s.wavelength = e
    return told(*one)


def S_i_names(a: "real", b: "real", c: "real", d: "real", e: "real", f: "real", x: "posreal@wl", wl: "posreal@wl"):
    return told(*named(a, b, c, d, wl))
