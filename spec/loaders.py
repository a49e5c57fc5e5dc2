"""Reference semantics of the instrument file readers (C16, C17)."""
import numpy as np
import pandas as pd
from refellips.dataSE import (
    DataSE,
    open_EP4file,
    open_HORIBAfile,
    open_M2000file,
    open_FilmSenseFile,
    custom_round,
    _loadEP4,
)
import vspec


def fold(d):
    x = np.array(d)
    big = x > 180
    x[big] = 360 - x[big]
    return x


def show(d):
    """everything a user can see of a data set"""
    return [d.wavelength, d.aoi, d.psi, d.delta, d.mask, d.name, d.metadata, d._delta_flipped, d.filename]


def ds(w, a, p, q, name, meta, flip):
    q = fold(q) if flip else q
    return [w, a, p, q, np.ones(len(w), dtype=bool), name, meta, bool(flip), None]


# -- Accurion EP4 ------------------------------------------------------------------
def average(df, cs):
    return df[cs].groupby(["AOI", "#Lambda"]).mean().reset_index()


FOUR = ["#Lambda", "AOI", "Psi", "Delta"]


def summary(g, x, y):
    return {
        "lambda": np.array(g["#Lambda"]), "aoi": np.array(g["AOI"]), "psi": np.array(g["Psi"]), "delta": np.array(g["Delta"]),
        "X pos": x, "Y pos": y,
    }


def spots(df):
    """row numbers at which the stage has moved by more than 0.2 mm"""
    x, y = np.nan, np.nan
    out = []
    for i, row in df.iterrows():
        if not np.allclose(x, row["X_pos"], atol=0.2) or not np.allclose(y, row["Y_pos"], atol=0.2):
            out.append(i)
            x, y = row["X_pos"], row["Y_pos"]
    return out + [len(df)]


def ref_ep4_one(df):
    if "X_pos" in df and "Y_pos" in df and (len(df["X_pos"].drop_duplicates()) > 1 or len(df["Y_pos"].drop_duplicates()) > 1):
        cut = spots(df)
        out = []
        for i in range(len(cut) - 1):
            part = df.loc[cut[i]:cut[i + 1] - 1][FOUR + ["X_pos", "Y_pos"]]
            if len(part.index) > 0:
                g = part.groupby(["AOI", "#Lambda"]).mean().reset_index()
                out.append(summary(g, np.round(np.mean(g["X_pos"]), 2), np.round(np.mean(g["Y_pos"]), 2)))
        return out
    g = average(df, FOUR)
    return [summary(g, None, None)]


def H_ep4_one(df: "df"):
    return _loadEP4(df)


def S_ep4_one(df: "df"):
    return ref_ep4_one(df)


def name_of(fname, m):
    s = str(fname)[:-23]
    if m["X pos"] is not None:
        s = s + f"_x={m['X pos']}mm_y={m['Y pos']}mm"
    if m["time"] is not None:
        s = s + f"_t={m['time']}s"
    return s


def ref_ep4(f, flip):
    df = pd.read_csv(f, sep="\t", skiprows=[1]).dropna(axis=0, how="any").reset_index()
    if "Time" in df and len(df["Time"].drop_duplicates()) > 1:
        out = []
        for t in df["Time"].drop_duplicates():
            part = ref_ep4_one(df[df["Time"] == t].reset_index(drop=True))
            for o in part:
                o["time"] = t
            out += part
    else:
        out = ref_ep4_one(df)
        for o in out:
            o["time"] = None
    res = []
    for o in out:
        meta = {"X pos": o["X pos"], "Y pos": o["Y pos"], "time": o["time"]}
        res.append(ds(o["lambda"], o["aoi"], o["psi"], o["delta"], name_of(f, meta), meta, flip))
    return res


def H_ep4(f: "path", flip: "bool"):
    d = open_EP4file(f, reflect_delta=flip)
    if isinstance(d, DataSE):
        return 1, show(d)
    return 2, [show(x) for x in d]


def S_ep4(f: "path", flip: "bool"):
    r = ref_ep4(f, flip)
    if len(r) == 1:
        return 1, r[0]
    return 2, r


def H_ep4_plain(f: "path"):
    return open_EP4file(f)


def S_ep4_plain(f: "path"):
    return open_EP4file(f, reflect_delta=False)


def H_m2k0(f: "path@m2000.dat"):
    return open_M2000file(f)


def S_m2k0(f: "path@m2000.dat"):
    return S_m2k(f, 1, 1)


def H_round(x: "arr:N", b: "posreal"):
    return custom_round(x, b), custom_round(x)


def S_round(x: "arr:N", b: "posreal"):
    return np.round(b * np.round(x / b), 2), np.round(0.25 * np.round(x / 0.25), 2)


# -- FilmSense ---------------------------------------------------------------------
def lines_of(f):
    with open(f) as h:
        return h.readlines()


def fs_header(line, dyn):
    w = line[:-1].split("\t")
    m = {"numwvls": int(w[0]), "numdatasets": int(w[1]), "nomAOI": float(w[2])}
    if dyn:
        m["?"] = float(w[3])
    else:
        m["AlignX"], m["AlignY"], m["AvInten"] = float(w[3]), float(w[4]), float(w[5])
    return m


def fs_set(wl, n, c, s, meta):
    n, c, s = [np.array(x, dtype=np.float32) for x in (n, c, s)]
    psi = np.rad2deg(np.arccos(n) / 2)
    delta = np.rad2deg(np.angle((c + 1j * s) / (1 + n)))
    delta = np.where(delta < 0, 360 + delta, delta)
    return DataSE([wl, np.ones(len(wl)) * meta["nomAOI"], psi, delta], **meta)


def H_fs(f: "path@filmsense.txt"):
    return open_FilmSenseFile(f)


def S_fs(f: "path@filmsense.txt"):
    L = lines_of(f)
    if L[0] == "Film_Sense_Data\n":
        m = fs_header(L[1], False)
        k = m["numwvls"]
        wl = np.array([float(L[2 + i].split("\t")[0]) for i in range(k)])
        n, c, s = [np.array([float(L[2 + k + i].split("\t")[j]) for i in range(k)]) for j in range(3)]
        return fs_set(wl, n, c, s, m)
    if L[0] == "Film_Sense_Dyn_Data\n":
        m = fs_header(L[1], True)
        k = m["numwvls"]
        wl = np.array([float(L[2 + i].split("\t")[0]) for i in range(k)])
        out = {}
        for r in range(m["numdatasets"]):
            w = L[3 + k + r][:-2].split("\t")
            n, c, s = [np.array([float(w[5 * i + 1 + j]) for i in range(k)]) for j in range(3)]
            out[float(w[0])] = fs_set(wl, n, c, s, m)
        return out
    assert False


# -- Woollam M2000 -----------------------------------------------------------------
COLS = ["Wavelength, nm", "Angle of incidence, ˚", "Psi", "Delta", "Psi error", "Delta error", "None", "Time, min"]


def ref_meta(line):
    out = {}
    for e in line[11:-1].split(", "):
        k, v = e.split("=")
        out[k] = v
    return out


def H_m2k(f: "path@m2000.dat", every: "posint", drop: "posint"):
    return open_M2000file(f, take_every=every, dropdatapoints=drop)


def S_m2k(f: "path@m2000.dat", every: "posint", drop: "posint"):
    L = lines_of(f)
    kind = L[2][:-1]
    if kind == "nm":
        meta = ref_meta(L[1][:-1])
        rows = []
        p = 3
        while True:
            w = L[p].split("\t")
            if not w or len(w) == 1:
                break
            rows.append([float(w[0]), float(w[1]), float(w[2]), float(w[3])])
            p += 3
        X = np.array(rows)[::drop]
        return DataSE(X.T, **meta)
    if kind == "Dynamic":
        meta = ref_meta(L[1][:-1])
        df = pd.read_csv(f, skiprows=4, sep="\t", names=COLS)
        out = {}
        for i, (t, g) in enumerate(df.groupby("Time, min")):
            if i % every == 0:
                a = np.array([g[c] for c in COLS[:4]])
                out[np.round(t * 60, 1)] = DataSE(a[:, ::drop], **meta)
        return out
    raise ValueError("")


# -- Horiba ------------------------------------------------------------------------
def H_horiba(f: "path@horiba.spe", flip: "bool", lo: "real@cutlo", hi: "real@cuthi"):
    return open_HORIBAfile(f, reflect_delta=flip, lambda_cutoffs=[lo, hi])


def blocks(L):
    """a line '# NAME:' opens a block, a blank line closes it; the text lines
    of the block are its value (none: None, one: that line)"""
    meta, start = {}, {}
    inside = False
    for i, line in enumerate(L):
        line = line.strip()
        if not inside:
            if len(line) and line[0] == "#":
                name = " ".join(line.split(" ")[1:])[:-1]
                meta[name] = []
                start[name] = i
                inside = True
        elif not len(line):
            inside = False
            if len(meta[name]) == 0:
                meta[name] = None
            elif len(meta[name]) == 1:
                meta[name] = meta[name][0]
        else:
            meta[name].append(line)
    return meta, start


def S_horiba(f: "path@horiba.spe", flip: "bool", lo: "real@cutlo", hi: "real@cuthi"):
    meta, start = blocks(lines_of(f))
    df = pd.read_csv(f, skiprows=start["DATA"] + 1, nrows=len(meta["DATA"]) - 1, encoding="latin-1", delimiter=" ", usecols=["nm", "Psi", "Delta"])
    a = float(meta["INCIDENCE ANGLE"][:5]) * np.ones(len(df["nm"]))
    w, psi, delta = np.array(df["nm"]), np.array(df["Psi"]), np.array(df["Delta"])
    k = w > lo
    w, a, psi, delta = w[k], a[k], psi[k], delta[k]
    k = w < hi
    w, a, psi, delta = w[k], a[k], psi[k], delta[k]
    return DataSE([w, a, psi, delta], name=str(f)[:-4], reflect_delta=flip, **meta)


def H_horiba0(f: "path@horiba.spe"):
    return open_HORIBAfile(f)


def S_horiba0(f: "path@horiba.spe"):
    meta, start = blocks(lines_of(f))
    df = pd.read_csv(f, skiprows=start["DATA"] + 1, nrows=len(meta["DATA"]) - 1, encoding="latin-1", delimiter=" ", usecols=["nm", "Psi", "Delta"])
    a = float(meta["INCIDENCE ANGLE"][:5]) * np.ones(len(df["nm"]))
    w, psi, delta = np.array(df["nm"]), np.array(df["Psi"]), np.array(df["Delta"])
    k = w > -np.inf
    w, a, psi, delta = w[k], a[k], psi[k], delta[k]
    k = w < np.inf
    w, a, psi, delta = w[k], a[k], psi[k], delta[k]
    return DataSE([w, a, psi, delta], name=str(f)[:-4], reflect_delta=False, **meta)
