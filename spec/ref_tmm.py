"""Textbook coherent transfer matrix method, written from Byrnes arXiv:1603.02720."""
import numpy as np
from numpy.lib.scimath import arcsin as carcsin


def ref_tmm(n, d, th0, lam):
    """r and t of a stack n[0..], d[1..-2], angle th0 (rad), wavelength lam."""
    assert (np.abs(np.imag(n[0] * np.sin(th0))) < 100 * np.finfo(np.float64).eps).all()
    nl = n.size
    th = carcsin(n[0] * np.sin(th0[None, :]) / n[:, None])
    cos = np.cos(th)
    out = {}
    for pol in ("s", "p"):
        if pol == "s":
            a = n[:-1, None] * cos[:-1]
            b = n[1:, None] * cos[1:]
        else:
            a = n[1:, None] * cos[:-1]
            b = n[:-1, None] * cos[1:]
        r = (a - b) / (a + b)
        t = 2 * n[:-1, None] * cos[:-1] / (a + b)
        m00 = 1 / t[0]
        m01 = r[0] / t[0]
        m10 = m01
        m11 = m00
        if nl > 2:
            phase = 2 * np.pi * n[1:-1, None] * cos[1:-1] / lam * d[1:-1, None]
            # opaque layers: attenuation is capped at 35
            if (np.imag(phase) > 35).any():
                phase.imag = np.clip(phase.imag, -np.inf, 35)
            e = np.exp(1j * phase)
        for i in range(nl - 2):
            # propagate through layer i+1, then its back interface
            q00 = 1 / e[i] / t[i + 1]
            q01 = r[i + 1] * (1 / e[i]) / t[i + 1]
            q10 = r[i + 1] * e[i] / t[i + 1]
            q11 = e[i] / t[i + 1]
            m00, m01, m10, m11 = (
                m00 * q00 + m01 * q10,
                m00 * q01 + m01 * q11,
                m10 * q00 + m11 * q10,
                m10 * q01 + m11 * q11,
            )
        out["r_" + pol] = m10 / m00
        out["t_" + pol] = 1 / m00
    return out


def ref_psi_delta(aoi, layers, lam, off, reflect):
    th = np.asarray(aoi, float) * np.pi / 180
    w = np.array(layers)
    w[0, 2] = 0
    n = w[:, 1] + 1j * w[:, 2]
    d = w[:, 0] / 10
    d[0] = np.inf
    d[-1] = np.inf
    r = ref_tmm(n, d, th, lam)
    rs = r["r_s"]
    rp = r["r_p"]
    psi = np.arctan(abs(rp / rs))
    delta = np.angle(1 / (-rp / rs)) + np.pi
    if reflect:
        delta = np.where(delta > np.pi, 2 * np.pi - delta, delta)
    return psi * 180 / np.pi, delta * 180 / np.pi + off
