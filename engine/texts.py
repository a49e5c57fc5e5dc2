"""Sample text files in the formats the readers accept (evaluation points of
evalnum only: they decide whether two value graphs differ, never that they agree)."""


def filmsense(r):
    k, n = r.choice([1, 2, 3, 4, 1, 2, 3, 6, 7]), r.randint(0, 3)
    kind = r.random()

    def nc():
        v = [f"{r.uniform(-0.99, 0.99):.4f}" for _ in range(3)]
        if r.random() < 0.2:                        # delta close to zero, on either side
            v[1:] = [f"{r.uniform(0.5, 0.99):.4f}", r.choice(["-0.0100", "0.0", "0.0100", "-0.0010"])]
        return "\t".join(v) + f"\t{r.uniform(0.9, 1):.4f}\t{r.uniform(1, 30):.3f}"

    led = [f"{r.uniform(300, 900):.2f}\t" + "\t".join(f"{r.uniform(1, 20):.2f}" for _ in range(6)) + "\n" for _ in range(k)]
    if kind < 0.5:
        head = f"{k}\t1\t{r.choice([-70.0, 65.5])}\t{r.random():.3f}\t{r.random():.3f}\t{r.uniform(1, 20):.2f}\n"
        return ["Film_Sense_Data\n", head] + led + [nc() + "\n" for _ in range(k)]
    if kind < 0.95:
        head = f"{k}\t{n}\t{r.choice([-70.0, 65.5])}\t{r.randint(1, 9)}\n"
        rows = [f"{r.choice([0.5, 1.0, 2.5, t + 3.25])}\t" + "\t".join(nc() for _ in range(k)) + "\t\n" for t in range(n)]
        return ["Film_Sense_Dyn_Data\n", head] + led + ["Time\tN\tC\tS\n"] + rows
    return ["Something else\n"] + led


def m2000(r):
    pad = r.choice(["", "", "", " "])
    meta = ", ".join(f"{k}={r.choice(['', 'M-'])}{r.randint(1, 9)}{pad}" for k in ["EllipsometerType", "CompleteEASE", "AcqTime"][: r.randint(1, 3)])
    head = ["\n", f"VASEmethod[{meta}]\n"]
    n = r.randint(1, 7)
    kind = r.random()
    end = r.choice(["", "\t"])

    def row(last=None):
        d = r.choice([r.uniform(0, 360), r.uniform(0, 360), r.uniform(-90, 0), r.uniform(0, 720)])
        p = r.choice([r.uniform(1, 80), r.uniform(1, 80), r.uniform(1, 80), -r.uniform(0, 1)])
        return f"{r.uniform(300, 900):.3f}\t{r.choice([65.0, 70.0, 75.02])}\t{p:.4f}\t{d:.4f}\t{r.random():.4f}\t{r.random():.4f}" + (end if last is None else last)

    if kind < 0.6:
        out = head + ["nm\n"]
        for _ in range(n):
            out += [row() + "\n", f"dPolE\t{r.uniform(300, 900):.3f}\t0.1\t{r.random():.4f}\t1.0\n", f"uR\t{r.uniform(300, 900):.3f}\t0.2\t{r.random():.4f}\t1.0\n"]
        return out + [""] * 3
    if kind < 0.95:
        ts = r.choice([[0.02, 0.5, 1.0], [0.0208, 0.1234, 0.7777]])
        return head + ["Dynamic\n", "nm\n"] + [row("\t") + f"\t{r.choice(ts)}\n" for _ in range(n)] + [""]
    return head + ["other\n", "nm\n"]


def horiba(r):
    out = [f"preamble {i}\n" for i in range(r.randint(0, 1))]
    angle = f"{r.uniform(50, 80):.2f}"
    blocks = [("EXPERIMENT", []), ("INCIDENCE ANGLE", [angle + r.choice(["", " deg"])]), ("COMMENTS", ["a b", "c", "d  e"][: r.randint(0, 3)]),
              ("SLIT", ["100"])]
    n = r.randint(1, 4)
    data = ["nm Psi Delta"] + [f"{r.choice([300.0, 400.5, 650.0, 900.0, 2000.0, 190.0, round(r.uniform(300, 900), 1)])} {r.uniform(1, 80):.2f} {r.uniform(0, 360):.2f}" for _ in range(n)]
    blocks.append(("DATA", data))
    if r.random() < 0.2:
        blocks.append(("COMMENTS", ["again"]))
    if r.random() < 0.2:
        blocks.append(("TIME: START", ["12:30"]))
    r.shuffle(blocks)
    for k, v in blocks:
        out += [r.choice(["# "] * 9 + ["  # "]) + f"{k}:\n"] + [f"{x}\n" for x in v] + ["\n"] * r.randint(1, 2)
    return out


def table(r):
    n = r.choice([0, 1, 2, 3, 0, 1, 2, 3, r.randint(30, 99)])
    kinds = ["wavelength\tAOI\tPsi\tDelta\n", "# made by hand\n", "sample\t1\n", "\t300\n", "\n", "nm\n"]
    out = [r.choice(kinds) for _ in range(n)]
    for _ in range(r.randint(2, 5)):
        out.append(f"{r.uniform(300, 900):.2f}\t{r.choice([65.0, 70.0])}\t{r.uniform(1, 80):.3f}\t{r.uniform(0, 360):.3f}\n")
        if r.random() < 0.08:
            out.append(r.choice(["# note\n", "\n"]))
    return out


TEXTS = {"table.dat": table, "filmsense.txt": filmsense, "m2000.dat": m2000, "horiba.spe": horiba}
