"""Reference semantics of data sets (C13, C14, C15)."""
import io
import numpy as np
from refellips.dataSE import DataSE, custom_round
import vspec


def sel(x, mask):
    return x[mask] if len(x) > 0 else x


def fold(d):
    x = np.array(d)
    big = x > 180
    x[big] = 360 - x[big]
    return x


def cols(d):
    return d.wavelength, d.aoi, d.psi, d.delta


# -- construction ----------------------------------------------------------------
def H_ctor(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", flip: "bool", nm: "str"):
    d = DataSE([wl, aoi, psi, delta], name=nm, reflect_delta=flip, where="lab")
    return cols(d), d.data, d.mask, d._delta_flipped, d.name, d.filename, d.weighted, d.metadata, len(d)


def S_ctor(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", flip: "bool", nm: "str"):
    q = fold(delta) if flip else delta
    c = (wl, aoi, psi, q)
    return c, c, np.ones(len(wl), dtype=bool), bool(flip), nm, None, False, {"where": "lab"}, len(wl)


def H_ctor_seq(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta"):
    a = DataSE((wl, aoi, psi, delta))
    b = DataSE(np.array([wl, aoi, psi, delta]))
    return cols(a), cols(b), a.name, a.metadata, a._delta_flipped


def S_ctor_seq(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta"):
    c = (wl, aoi, psi, delta)
    return c, c, None, {}, False


def H_empty(x: "real"):
    d = DataSE()
    return cols(d), len(d), d._delta_flipped, d.filename


def S_empty(x: "real"):
    z = np.zeros(0)
    return (z, z, z, z), 0, False, None


# the caller's arrays are copied both ways
def H_alias(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", flip: "bool", v: "real"):
    d = DataSE([wl, aoi, psi, delta], reflect_delta=flip)
    wl[:] = v
    aoi[:] = v
    psi[:] = v
    delta[:] = v
    return cols(d)


def S_alias(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", flip: "bool", v: "real"):
    q = fold(delta) if flip else delta
    out = np.array(wl), np.array(aoi), np.array(psi), np.array(q)
    wl[:] = v
    aoi[:] = v
    psi[:] = v
    delta[:] = v
    return out


# -- masks -----------------------------------------------------------------------
def H_mask(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", flip: "bool", mask: "barr:N"):
    d = DataSE([wl, aoi, psi, delta], reflect_delta=flip)
    d.mask = mask
    return cols(d), d.data, len(d)


def S_mask(wl: "posarr:N@wl", aoi: "arr:N@aoi", psi: "arr:N@psi", delta: "arr:N@delta", flip: "bool", mask: "barr:N"):
    q = fold(delta) if flip else delta
    c = sel(wl, mask), sel(aoi, mask), sel(psi, mask), sel(q, mask)
    return c, c, len(c[0])


def H_setter(X: "arr2:4,N", Y: "arr2:4,M", mask: "barr:N", flip: "bool"):
    d = DataSE(X, reflect_delta=flip)
    d.mask = mask
    d.data = Y[0], Y[1], Y[2], Y[3]
    return cols(d), d.mask


def S_setter(X: "arr2:4,N", Y: "arr2:4,M", mask: "barr:N", flip: "bool"):
    return (Y[0], Y[1], Y[2], Y[3]), np.ones(len(Y[0]), dtype=bool)


def H_setter_alias(X: "arr2:4,N", a: "arr:M", b: "arr:M", c: "arr:M", e: "arr:M", v: "real"):
    d = DataSE(X)
    d.data = a, b, c, e
    a[:] = v
    b[:] = v
    c[:] = v
    e[:] = v
    return cols(d)


def S_setter_alias(X: "arr2:4,N", a: "arr:M", b: "arr:M", c: "arr:M", e: "arr:M", v: "real"):
    out = np.array(a), np.array(b), np.array(c), np.array(e)
    a[:] = v
    b[:] = v
    c[:] = v
    e[:] = v
    return out


def H_copyctor(X: "arr2:4,N", mask: "barr:N", flip: "bool", nm: "str", v: "real"):
    d = DataSE(X, name=nm, reflect_delta=flip, k=v)
    d.mask = mask
    e = DataSE(d)
    d._wavelength[:] = v
    d._aoi[:] = v
    d._psi[:] = v
    d._delta[:] = v
    d.mask[:] = False
    d.metadata["k"] = 0
    return cols(e), e.mask, e.name, e.metadata, e._delta_flipped, e.filename


def S_copyctor(X: "arr2:4,N", mask: "barr:N", flip: "bool", nm: "str", v: "real"):
    q = fold(X[3]) if flip else X[3]
    m = np.array(mask)
    out = (sel(X[0], m), sel(X[1], m), sel(X[2], m), sel(q, m)), m, nm, {"k": v}, bool(flip), None
    mask[:] = False
    return out


def H_copyflip(X: "arr2:4,N", mask: "barr:N", a: "bool", b: "bool"):
    d = DataSE(X, reflect_delta=a)
    d.mask = mask
    e = DataSE(d, reflect_delta=b)
    return cols(e), e._delta_flipped, cols(d), d._delta_flipped


def S_copyflip(X: "arr2:4,N", mask: "barr:N", a: "bool", b: "bool"):
    p = fold(X[3]) if a else X[3]
    q = fold(p) if b else p
    return (
        (sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(q, mask)), bool(a) or bool(b),
        (sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(p, mask)), bool(a),
    )


def H_reflip(X: "arr2:4,N", Y: "arr2:4,N", a: "bool", b: "bool"):
    d = DataSE(X, reflect_delta=a)
    d.data = Y
    e = DataSE(d, reflect_delta=b)
    return cols(e), e._delta_flipped, cols(d)


def S_reflip(X: "arr2:4,N", Y: "arr2:4,N", a: "bool", b: "bool"):
    q = fold(Y[3]) if b else Y[3]
    return (Y[0], Y[1], Y[2], q), bool(a) or bool(b), (Y[0], Y[1], Y[2], Y[3])


def H_apart(X: "arr2:4,N", Y: "arr2:4,N", v: "real"):
    d, e, g = DataSE(X), DataSE(Y), DataSE()
    d.metadata["k"] = v
    d.mask[:] = False
    d._delta[:] = v
    d.name = "first"
    return cols(e), e.metadata, e.name, cols(g), g.metadata, DataSE(X).metadata


def S_apart(X: "arr2:4,N", Y: "arr2:4,N", v: "real"):
    z = np.zeros(0)
    return (Y[0], Y[1], Y[2], Y[3]), {}, None, (z, z, z, z), {}, {}


# -- grouping by wavelength --------------------------------------------------------
def H_groups(X: "arr2:4,N@wl,aoi,psi,delta", mask: "barr:N"):
    d = DataSE(X)
    d.mask = mask
    return [list(g) for g in d.unique_wavelength_data()]


def S_groups(X: "arr2:4,N@wl,aoi,psi,delta", mask: "barr:N"):
    w, a, p, q = sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(X[3], mask)
    return [[u, a[w == u], p[w == u], q[w == u]] for u in np.unique(w)]


def look(d):
    """everything a data set is asked for, in one go"""
    return [cols(d), d.data, len(d), [list(g) for g in d.unique_wavelength_data()], np.array(d.mask)]


def ref_look(w, a, p, q, mask):
    w, a, p, q = sel(w, mask), sel(a, mask), sel(p, mask), sel(q, mask)
    return [(w, a, p, q), (w, a, p, q), len(w), [[u, a[w == u], p[w == u], q[w == u]] for u in np.unique(w)], mask]


def H_again(X: "arr2:4,N@wl,aoi,psi,delta", Y: "arr2:4,M@wl,aoi,psi,delta", m: "barr:N", k: "barr:N", j: "barr:M", flip: "bool"):
    """what was asked before does not matter"""
    d = DataSE(X, reflect_delta=flip)
    look(d)
    d.mask = m
    a = look(d)
    d.mask = k
    b = look(d)
    d.data = Y[0], Y[1], Y[2], Y[3]
    look(d)
    d.mask = j
    return a, b, look(d)


def S_again(X: "arr2:4,N@wl,aoi,psi,delta", Y: "arr2:4,M@wl,aoi,psi,delta", m: "barr:N", k: "barr:N", j: "barr:M", flip: "bool"):
    q = fold(X[3]) if flip else X[3]
    return ref_look(X[0], X[1], X[2], q, m), ref_look(X[0], X[1], X[2], q, k), ref_look(Y[0], Y[1], Y[2], Y[3], j)


def H_edit_mask(X: "arr2:4,N@wl,aoi,psi,delta", i: "int", flip: "bool"):
    """points are masked one by one in the mask itself"""
    d = DataSE(X, reflect_delta=flip)
    look(d)
    d.mask[X[0] > 500] = False
    return look(d)


def S_edit_mask(X: "arr2:4,N@wl,aoi,psi,delta", i: "int", flip: "bool"):
    m = np.ones(len(X[0]), dtype=bool)
    m[X[0] > 500] = False
    return ref_look(X[0], X[1], X[2], fold(X[3]) if flip else X[3], m)


# -- files -------------------------------------------------------------------------
def H_save(X: "arr2:4,N", mask: "barr:N", flip: "bool", f: "path"):
    d = DataSE(X, reflect_delta=flip)
    d.mask = mask
    d.save(f)
    return cols(d)


def S_save(X: "arr2:4,N", mask: "barr:N", flip: "bool", f: "path"):
    q = fold(X[3]) if flip else X[3]
    np.savetxt(f, np.column_stack((X[0], X[1], X[2], q)), delimiter="\t", header="wavelength\tAOI\tPsi\tDelta")
    return sel(X[0], mask), sel(X[1], mask), sel(X[2], mask), sel(q, mask)


def H_save_delim(X: "arr2:4,N", f: "path", delim: "str@;,:"):
    d = DataSE(X, delimiter=delim)
    d.save(f)
    return d.delimiter


def S_save_delim(X: "arr2:4,N", f: "path", delim: "str@;,:"):
    np.savetxt(f, np.column_stack((X[0], X[1], X[2], X[3])), delimiter="\t", header="wavelength\tAOI\tPsi\tDelta")
    return delim


def H_load_delim(f: "path@table.dat", delim: "str@\t"):
    return cols(DataSE(f, delimiter=delim))


def S_load_delim(f: "path@table.dat", delim: "str@\t"):
    with open(f, "r") as h:
        lines = h.readlines()
    w, a, p, q = table(lines, delim)
    return w, a, p, q


def table(lines, delim="\t"):
    """the numbers that follow the (at most 100) lines whose first field is not a number"""
    skip = 0
    for line in lines[:100]:
        try:
            float(line.split(delim)[0])
            break
        except ValueError:
            skip += 1
    return np.loadtxt(lines, skiprows=skip, delimiter=delim).T


def H_load(f: "path@table.dat", flip: "bool"):
    d = DataSE(f, reflect_delta=flip)
    return cols(d), d.mask, d._delta_flipped, d.filename


def S_load(f: "path@table.dat", flip: "bool"):
    with open(f, "r") as h:
        lines = h.readlines()
    w, a, p, q = table(lines)
    if flip:
        q = fold(q)
    return (sel(w, np.ones_like(w, dtype=bool)), a, p, q), np.ones(len(w), dtype=bool), bool(flip), f


def H_load_handle(h: "file@table.dat"):
    d = DataSE()
    d.load(h)
    return cols(d), d.mask


def S_load_handle(h: "file@table.dat"):
    w, a, p, q = table(h.readlines())
    return (w, a, p, q), np.ones(len(w), dtype=bool)


def H_refresh(f: "path@table.dat", flip: "bool", n: "int"):
    d = DataSE(f, reflect_delta=flip)
    d._delta = d._delta + 1
    d.refresh()
    return cols(d), d.mask, d._delta_flipped, d.filename


def H_refresh_mask(f: "path@table.dat", flip: "bool", x: "real@psi"):
    d = DataSE(f, reflect_delta=flip)
    d.mask = d._psi > x
    d.refresh()
    return cols(d), d.mask, d._delta_flipped, d.filename


def S_refresh_mask(f: "path@table.dat", flip: "bool", x: "real@psi"):
    return S_load(f, flip)


def S_refresh(f: "path@table.dat", flip: "bool", n: "int"):
    return S_load(f, flip)
