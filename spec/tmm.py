"""Reference semantics: coherent transfer matrix method (C02, C03, C04)."""
import numpy as np
from refellips.reflect_modelSE import (
    coh_tmm,
    Delta_Psi_TMM,
    interface_r_s,
    interface_r_p,
    interface_t_s,
    interface_t_p,
)
from ref_tmm import ref_tmm, ref_psi_delta


# -- Fresnel coefficients ---------------------------------------------------
def H_fresnel(n1: "cplx@nk", n2: "cplx@nk", c1: "real@unit", c2: "real@unit"):
    return (
        interface_r_s(n1, n2, c1, c2),
        interface_r_p(n1, n2, c1, c2),
        interface_t_s(n1, n2, c1, c2),
        interface_t_p(n1, n2, c1, c2),
    )


def S_fresnel(n1: "cplx@nk", n2: "cplx@nk", c1: "real@unit", c2: "real@unit"):
    a = np.cos(c1)
    b = np.cos(c2)
    ds = n1 * a + n2 * b
    dp = n2 * a + n1 * b
    return (
        (n1 * a - n2 * b) / ds,
        (n2 * a - n1 * b) / dp,
        2 * n1 * a / ds,
        2 * n1 * a / dp,
    )


# -- the stack --------------------------------------------------------------
def H_tmm_r(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl"):
    r = coh_tmm(n, d, th, lam)
    return r["r_s"], r["r_p"]


def S_tmm_r(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl"):
    r = ref_tmm(n, d, th, lam)
    return r["r_s"], r["r_p"]


def H_tmm_t(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl"):
    r = coh_tmm(n, d, th, lam)
    return r["t_s"], r["t_p"]


def S_tmm_t(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl"):
    r = ref_tmm(n, d, th, lam)
    return r["t_s"], r["t_p"]


def H_psidelta(aoi: "arr:N@aoi", layers: "arr2:L,4@layers", lam: "posreal@wl", off: "real", flip: "bool"):
    return Delta_Psi_TMM(aoi, layers, lam, off, reflect_delta=flip)


def S_psidelta(aoi: "arr:N@aoi", layers: "arr2:L,4@layers", lam: "posreal@wl", off: "real", flip: "bool"):
    return ref_psi_delta(aoi, layers, lam, off, flip)


# indices given as plain real numbers; total internal reflection included
def H_tmm_real(n: "posarr:L@nk", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl"):
    r = coh_tmm(n, d, th, lam)
    return r["r_s"], r["r_p"], r["t_s"], r["t_p"]


def S_tmm_real(n: "posarr:L@nk", d: "posarr:L@thick", th: "arr:N@angle", lam: "posreal@wl"):
    r = ref_tmm(n, d, th, lam)
    return r["r_s"], r["r_p"], r["t_s"], r["t_p"]


# angles and wavelengths may both be arrays: one amplitude per pair
def H_tmm_pairs(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posarr:N@wl"):
    r = coh_tmm(n, d, th, lam)
    return r["r_s"], r["r_p"], r["t_s"], r["t_p"]


def S_tmm_pairs(n: "carr:L@nstack", d: "posarr:L@thick", th: "arr:N@angle", lam: "posarr:N@wl"):
    r = ref_tmm(n, d, th, lam)
    return r["r_s"], r["r_p"], r["t_s"], r["t_p"]
