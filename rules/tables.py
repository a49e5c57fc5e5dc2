"""Bundled dispersion tables: one header line, then rows of wavelength (um), n and optionally k."""
import glob
import math
import os


def bundled(repo):
    """(rows inspected, findings)"""
    count, bad = 0, []
    for f in sorted(glob.glob(os.path.join(repo, "refellips", "materials", "*.csv"))):
        rel = os.path.relpath(f, repo)
        with open(f, encoding="utf-8-sig") as h:
            lines = h.read().splitlines()
        if lines:
            try:
                [float(x) for x in lines[0].split(",")]
                bad.append(f"{rel}:1: the header line is missing, the first row would be skipped")
            except ValueError:
                pass
        ncol, rows = None, 0
        for i, line in enumerate(lines[1:], 2):
            line = line.split("#")[0].strip()
            if not line:
                continue
            rows += 1
            count += 1
            try:
                v = [float(x) for x in line.split(",")]
            except ValueError:
                bad.append(f"{rel}:{i}: not numeric: {line[:60]!r}")
                continue
            if len(v) not in (2, 3) or ncol not in (None, len(v)):
                bad.append(f"{rel}:{i}: {len(v)} columns")
                continue
            ncol = len(v)
            if not all(math.isfinite(x) for x in v):
                bad.append(f"{rel}:{i}: not finite")
            elif not 0.01 < v[0] <= 1000:
                bad.append(f"{rel}:{i}: wavelength {v[0]} is not in micrometres")
            elif v[1] <= 0 or (ncol == 3 and v[2] < 0):
                bad.append(f"{rel}:{i}: index {v[1:]} is not physical")
        if rows < 2:
            bad.append(f"{rel}: fewer than two rows")
    return count, bad
