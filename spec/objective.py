"""Reference semantics of the objective (C10, C11, C12, C13, C23)."""
import numpy as np
from numpy.linalg import LinAlgError
from scipy.optimize._numdiff import approx_derivative
from refellips.objectiveSE import ObjectiveSE, circular_distance
from refellips.dataSE import DataSE
from refnx.analysis import Parameters, Parameter
import vspec


def H_circ(a: "arr:N@delta", b: "arr:N@delta2", period: "posreal@period"):
    return circular_distance(a, b, period)


def S_circ(a: "arr:N@delta", b: "arr:N@delta2", period: "posreal@period"):
    d = np.abs(a - b) % period
    return np.minimum(d, period - d)


def mkdata(wl, aoi, psi, delta, mask, flip):
    d = DataSE([wl, aoi, psi, delta], reflect_delta=flip)
    d.mask = mask
    return d


def fold(delta, flip):
    x = np.array(delta)
    if flip:
        big = x > 180
        x[big] = 360 - x[big]
    return x


def sel(x, mask):
    return x[mask] if len(x) > 0 else x


def ref_res(m, wl, aoi, psi, delta, mask, flip):
    """psi differences, then shortest distances of delta around the circle, of the included points"""
    p, q = m(np.c_[sel(wl, mask), sel(aoi, mask)])
    d = np.abs(q - sel(fold(delta, flip), mask)) % 360
    return np.r_[p - sel(psi, mask), np.minimum(d, 360 - d)]


def H_res(m: "model", wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", mask: "barr:N", flip: "bool"):
    o = ObjectiveSE(m, mkdata(wl, aoi, psi, delta, mask, flip))
    return o.residuals()


def S_res(m: "model", wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", mask: "barr:N", flip: "bool"):
    m._flip_delta = bool(flip)
    return ref_res(m, wl, aoi, psi, delta, mask, flip)


def H_chi(m: "model", wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", mask: "barr:N", flip: "bool"):
    o = ObjectiveSE(m, mkdata(wl, aoi, psi, delta, mask, flip))
    return o.chisqr()


def S_chi(m: "model", wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", mask: "barr:N", flip: "bool"):
    m._flip_delta = bool(flip)
    r = ref_res(m, wl, aoi, psi, delta, mask, flip)
    return np.sum(r**2)


# -- parameters ------------------------------------------------------------------
class Mod:
    """any model: parameters, predictions and prior depend on the parameter values"""

    def __init__(self, ps):
        self.parameters = Parameters(ps, name="mod")
        self._flip_delta = False

    def __call__(self, wavelength_aoi, p=None):
        v = [float(x) for x in self.parameters]
        return (
            vspec.UF("mod_psi", "arr", wavelength_aoi, v, self._flip_delta),
            vspec.UF("mod_delta", "arr", wavelength_aoi, v, self._flip_delta),
        )

    def logp(self):
        return vspec.UF("mod_logp", "real", [float(x) for x in self.parameters])


def mpred(X, ps, flip):
    v = [float(x) for x in ps]
    return vspec.UF("mod_psi", "arr", X, v, flip), vspec.UF("mod_delta", "arr", X, v, flip)


def ref_setp(allp, pvals):
    """the varying parameters in order, else every parameter in order, else nothing is changed"""
    if pvals is None:
        return
    var = varying(allp)
    if len(pvals) == len(var):
        for i, p in enumerate(var):
            p.value = pvals[i]
    elif len(pvals) == len(allp):
        for i, p in enumerate(allp):
            p.value = pvals[i]
    else:
        raise ValueError()


def varying(allp):
    return list(vspec.uniq([p for p in allp if p.vary]))


def obj(ps, ln, X, wt=False):
    d = DataSE(X)
    d.weighted = wt
    return ObjectiveSE(Mod(ps), d, lnsigma=ln)


def H_setp(ps: "params:k", pv: "arr:k", X: "arr2:4,N"):
    o = ObjectiveSE(Mod(ps), DataSE(X))
    o.setp(pv)
    return list(o.parameters.flattened())


def S_setp(ps: "params:k", pv: "arr:k", X: "arr2:4,N"):
    ref_setp(list(ps), pv)
    return list(ps)


def H_setp_ln(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    o.setp(pv)
    return list(o.parameters.flattened()), list(o.varying_parameters())


def S_setp_ln(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    a = [ln] + list(ps)
    ref_setp(a, pv)
    return a, varying(a)


def H_ptrans(ps: "params:k", ln: "param", u: "arr:k", X: "arr2:4,N"):
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    return o.prior_transform(u)


def S_ptrans(ps: "params:k", ln: "param", u: "arr:k", X: "arr2:4,N"):
    v = varying([ln] + list(ps))
    out = np.zeros(len(v))
    for i in range(len(v)):
        out[i] = v[i].bounds.invcdf(u[i])
    return out


def ref_logp(allp):
    s = np.sum([p.logp() for p in varying(allp)])
    if not np.isfinite(s):
        return -np.inf
    return s


def ref_res2(X, ps):
    p, q = mpred(np.c_[X[0], X[1]], ps, False)
    d = np.abs(q - X[3]) % 360
    return np.r_[p - X[2], np.minimum(d, 360 - d)], np.r_[p, q]


def ref_logl(X, ps, ln, wt):
    r, y = ref_res2(X, ps)
    if ln is None:
        s2 = 1
    else:
        s2 = 1 + np.exp(2 * float(ln)) * y**2
    if wt:
        t = np.log(2 * np.pi * s2) + r**2 / s2
    else:
        t = r**2 / s2
    if np.isnan(t).any():
        raise RuntimeError()
    return -0.5 * np.sum(t) + vspec.UF("mod_logp", "real", [float(x) for x in ps])


def H_logp(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return obj(ps, ln, X).logp(pv)


def S_logp(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    a = [ln] + list(ps)
    ref_setp(a, pv)
    return ref_logp(a)


def H_logl(ps: "params:k", pv: "arr:k", X: "arr2:4,N"):
    return ObjectiveSE(Mod(ps), DataSE(X)).logl(pv)


def S_logl(ps: "params:k", pv: "arr:k", X: "arr2:4,N"):
    ref_setp(list(ps), pv)
    return ref_logl(X, ps, None, False)


def H_logl_ln(ps: "params:k", ln: "param", X: "arr2:4,N", wt: "bool", uw: "bool"):
    o = obj(ps, ln, X, wt)
    o.weighted = uw
    return o.logl()


def S_logl_ln(ps: "params:k", ln: "param", X: "arr2:4,N", wt: "bool", uw: "bool"):
    return ref_logl(X, ps, ln, wt and uw)


def H_logl_extra(ps: "params:k", X: "arr2:4,N", ex: "callable"):
    m = Mod(ps)
    d = DataSE(X)
    o = ObjectiveSE(m, d, logp_extra=ex)
    return o.logl()


def S_logl_extra(ps: "params:k", X: "arr2:4,N", ex: "callable"):
    m = Mod(ps)
    d = DataSE(X)
    return ref_logl(X, ps, None, False) + ex(m, d)


def H_nll(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return obj(ps, ln, X).nll(pv)


def S_nll(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    ref_setp([ln] + list(ps), pv)
    return -ref_logl(X, ps, ln, False)


def H_logpost(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return obj(ps, ln, X).logpost(pv)


def S_logpost(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    a = [ln] + list(ps)
    ref_setp(a, pv)
    p = ref_logp(a)
    if not np.isfinite(p):
        return -np.inf
    return p + ref_logl(X, ps, ln, False)


def H_nlpost(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return obj(ps, ln, X).nlpost(pv)


def S_nlpost(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return -obj(ps, ln, X).logpost(pv)


def H_npoints(m: "model", X: "arr2:4,N", f: "real"):
    o = ObjectiveSE(m, DataSE(X))
    return o.npoints, o.weighted, o.lnsigma


def S_npoints(m: "model", X: "arr2:4,N", f: "real"):
    m._flip_delta = False
    return len(X[0]), False, None


# -- covariance --------------------------------------------------------------------
def ref_jac(o, v):
    """Jacobian of the residuals, with respect to the parameters relative to their values where that works"""
    if np.any(v == 0):
        return approx_derivative(o.residuals, v), False
    try:
        return approx_derivative(lambda z: np.squeeze(o.residuals(v * z)), np.ones_like(v)), True
    except FloatingPointError:
        return approx_derivative(o.residuals, v), False


def ref_covar(o, ps, X, uw):
    v = np.array(Parameters(varying(list(ps))))
    try:
        jac, scaled = ref_jac(o, v)
    finally:
        ref_setp(list(ps), v)
    n = np.size(jac, 0)
    _, s, vt = np.linalg.svd(jac, full_matrices=False)
    keep = s > np.finfo(float).eps * max(jac.shape) * s[0]
    s = s[keep]
    vt = vt[: s.size]
    c = np.dot(vt.T / s**2, vt)
    if scaled:
        c = c * np.atleast_2d(v) * np.atleast_2d(v).T
    if len(np.where(np.diagonal(c) == 0)[0]) > 0:
        raise LinAlgError("")
    if uw:
        return c
    r, _ = ref_res2(X, ps)
    return c * (np.sum(r**2) / (n - len(varying(list(ps)))))


def H_covar(ps: "params:k", X: "arr2:4,N", wt: "bool"):
    d = DataSE(X)
    d.weighted = wt
    o = ObjectiveSE(Mod(ps), d)
    return o.covar()


def S_covar(ps: "params:k", X: "arr2:4,N", wt: "bool"):
    d = DataSE(X)
    d.weighted = wt
    return ref_covar(ObjectiveSE(Mod(ps), d), ps, X, wt)


def H_restore(ps: "params:k", X: "arr2:4,N"):
    m = Mod(ps)
    o = ObjectiveSE(m, DataSE(X))
    try:
        o.covar()
    except BaseException:
        pass
    return vspec.STATE("value")


def S_restore(ps: "params:k", X: "arr2:4,N"):
    return vspec.STATE("value")


# -- arguments -----------------------------------------------------------------------
def H_circ_default(a: "arr:N@delta", b: "arr:N@delta2"):
    return circular_distance(a, b)


def S_circ_default(a: "arr:N@delta", b: "arr:N@delta2"):
    d = np.abs(a - b) % 360
    return np.minimum(d, 360 - d)


def H_res_p(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return obj(ps, ln, X).residuals(pv)


def S_res_p(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    ref_setp([ln] + list(ps), pv)
    return ref_res2(X, ps)[0]


def H_chi_p(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    return obj(ps, ln, X).chisqr(pv)


def S_chi_p(ps: "params:k", ln: "param", pv: "arr:k", X: "arr2:4,N"):
    ref_setp([ln] + list(ps), pv)
    return np.sum(ref_res2(X, ps)[0] ** 2)


def H_make(ps: "params:k", X: "arr2:4,N", s: "real", uw: "bool", tr: "callable", nm: "str", ex: "callable"):
    o = ObjectiveSE(Mod(ps), X, s, uw, tr, ex, nm)
    ln = o.lnsigma
    return (float(ln), list(o.parameters.flattened())[1:], o.weighted, o.transform, o.logp_extra, o.name,
            o.data.data, o.residuals())


def S_make(ps: "params:k", X: "arr2:4,N", s: "real", uw: "bool", tr: "callable", nm: "str", ex: "callable"):
    return s, list(ps), False, tr, ex, nm, (X[0], X[1], X[2], X[3]), ref_res2(X, ps)[0]


def H_make_w(ps: "params:k", X: "arr2:4,N", uw: "bool", wt: "bool"):
    d = DataSE(X)
    d.weighted = wt
    o = ObjectiveSE(Mod(ps), d, use_weights=uw)
    return o.weighted, o.data is d, list(o.parameters.flattened()), o.logl()


def S_make_w(ps: "params:k", X: "arr2:4,N", uw: "bool", wt: "bool"):
    return wt and uw, True, list(ps), ref_logl(X, ps, None, wt and uw)


class Chain:
    """parameters with a sampled chain"""

    vary = False

    def pgen(self, ngen=1000, nburn=0, nthin=1):
        for i in range(3):
            yield vspec.UF("drawn", "arr", ngen, nburn, nthin, i)


class ChainMod:
    def __init__(self):
        self.parameters = Chain()


def H_pgen(X: "arr2:4,N", a: "posint", b: "posint", c: "posint"):
    o = ObjectiveSE(ChainMod(), DataSE(X))
    return list(o.pgen(a, b, c)), list(o.pgen()), list(o.pgen(nthin=c, ngen=a))


def S_pgen(X: "arr2:4,N", a: "posint", b: "posint", c: "posint"):
    p = Chain()
    return list(p.pgen(a, b, c)), list(p.pgen(1000, 0, 1)), list(p.pgen(a, 0, c))


class Seen(Mod):
    """a model that notices being evaluated"""

    def __init__(self, ps):
        Mod.__init__(self, ps)
        self.seen = False

    def __call__(self, wavelength_aoi, p=None):
        self.seen = True
        return Mod.__call__(self, wavelength_aoi, p)


def H_impossible(ps: "params:k", pv: "arr:k", X: "arr2:4,N"):
    m = Seen(ps)
    return ObjectiveSE(m, DataSE(X)).logpost(pv), m.seen


def S_impossible(ps: "params:k", pv: "arr:k", X: "arr2:4,N"):
    ref_setp(list(ps), pv)
    p = ref_logp(list(ps))
    if not np.isfinite(p):
        return -np.inf, False
    return p + ref_logl(X, ps, None, False), True


# -- histories -----------------------------------------------------------------------
def warm(o):
    """evaluate everything once"""
    return (o.residuals(), o.chisqr(), o.logp(), o.logl(), o.npoints, list(o.varying_parameters()),
            [float(p) for p in o.parameters.flattened()])


def H_hist_mask(ps: "params:k", ln: "param", X: "arr2:4,N", mask: "barr:N"):
    d = DataSE(X)
    o = ObjectiveSE(Mod(ps), d, lnsigma=ln)
    try:
        warm(o)
    except RuntimeError:
        pass
    d.mask = mask
    return o.residuals(), o.chisqr()


def ref_hist(X, ps):
    r, _ = ref_res2(X, ps)
    return r, np.sum(r**2)


def S_hist_mask(ps: "params:k", ln: "param", X: "arr2:4,N", mask: "barr:N"):
    if len(X[0]) > 0:
        return ref_hist([X[0][mask], X[1][mask], X[2][mask], X[3][mask]], ps)
    return ref_hist(X, ps)


def H_hist_data(ps: "params:k", X: "arr2:4,N", Y: "arr2:4,M"):
    d = DataSE(X)
    o = ObjectiveSE(Mod(ps), d)
    try:
        warm(o)
    except RuntimeError:
        pass
    d.data = (Y[0], Y[1], Y[2], Y[3])
    return o.residuals(), o.chisqr(), o.npoints


def S_hist_data(ps: "params:k", X: "arr2:4,N", Y: "arr2:4,M"):
    return ref_hist(Y, ps) + (len(Y[0]),)


def H_hist_par(ps: "params:k", ln: "param", a: "real", X: "arr2:4,N"):
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    try:
        warm(o)
    except RuntimeError:
        pass
    ln.value = a
    for p in ps:
        p.value = a
    return o.residuals(), o.logp(), o.logl()


def S_hist_par(ps: "params:k", ln: "param", a: "real", X: "arr2:4,N"):
    ln.value = a
    for p in ps:
        p.value = a
    return ref_res2(X, ps)[0], ref_logp([ln] + list(ps)), ref_logl(X, ps, ln, False)


def H_hist_swap(ps: "params:k", qs: "params:k", ln: "param", l2: "param", X: "arr2:4,N"):
    """another model, another noise parameter"""
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    try:
        warm(o)
    except RuntimeError:
        pass
    o.lnsigma = l2
    o.model = Mod(qs)
    return o.residuals(), list(o.parameters.flattened()), list(o.varying_parameters()), o.logp()


def S_hist_swap(ps: "params:k", qs: "params:k", ln: "param", l2: "param", X: "arr2:4,N"):
    a = [l2] + list(qs)
    return ref_res2(X, qs)[0], a, varying(a), ref_logp(a)


def H_hist_vary(ps: "params:k", ln: "param", v: "bool", pv: "arr:k", X: "arr2:4,N"):
    o = ObjectiveSE(Mod(ps), DataSE(X), lnsigma=ln)
    try:
        warm(o)
    except RuntimeError:
        pass
    ln.vary = v
    vs = list(o.varying_parameters())
    lp = o.logp()
    o.setp(pv)
    return vs, lp


def S_hist_vary(ps: "params:k", ln: "param", v: "bool", pv: "arr:k", X: "arr2:4,N"):
    ln.vary = v
    a = [ln] + list(ps)
    r = varying(a), ref_logp(a)
    ref_setp(a, pv)
    return r


def H_covar_mask(ps: "params:k", X: "arr2:4,N", mask: "barr:N"):
    d = DataSE(X)
    d.mask = mask
    return ObjectiveSE(Mod(ps), d).covar()


def S_covar_mask(ps: "params:k", X: "arr2:4,N", mask: "barr:N"):
    d = DataSE(X)
    d.mask = mask
    o = ObjectiveSE(Mod(ps), d)
    if len(X[0]) > 0:
        return ref_covar(o, ps, [X[0][mask], X[1][mask], X[2][mask], X[3][mask]], False)
    return ref_covar(o, ps, X, False)


def H_now(ps: "params:k", ln: "param", X: "arr2:4,N"):
    o = obj(ps, ln, X)
    return o.nll(), o.logpost(), o.nlpost()


def S_now(ps: "params:k", ln: "param", X: "arr2:4,N"):
    p, q = ref_logp([ln] + list(ps)), ref_logl(X, ps, ln, False)
    if np.isfinite(p):
        return -q, p + q, -(p + q)
    return -q, -np.inf, np.inf
