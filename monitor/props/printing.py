"""C37: printed matrices."""
import contextlib
import io

import numpy as np

from safe_autonomy_dynamics.external.aerobench.util import printmat

from ..kinds import logu, maybe, pick

N = {"quick": 6000, "thorough": 40000}
ABC = "abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789"


def word(rng, hi):
    return "".join(ABC[int(k)] for k in rng.integers(len(ABC), size=int(rng.integers(1, hi))))


def make(rng, i, tier):
    r, c = (1 if maybe(rng, 0.3) else int(rng.integers(1, 9))), int(rng.integers(1, 9))
    m = rng.uniform(-1, 1, (r, c)) * logu(rng, 1e-6, 1e6)
    if maybe(rng, 0.3):
        m = m * 10.0**rng.integers(-8, 8, (r, c))
    if maybe(rng, 0.2):
        m = np.round(m)
    if maybe(rng, 0.1):
        m[int(rng.integers(r)), int(rng.integers(c))] = pick(rng, 0.0, -0.0, 1e300, 1e-300, float("inf"), float("nan"))
    hi = pick(rng, 4, 8, 20)
    return {"m": m.tolist(), "label": word(rng, 12) + pick(rng, "", " x", "{}", "%s"), "rows": None if maybe(rng, 0.25) else [word(rng, hi) for _ in range(r)],
            "cols": [word(rng, hi) for _ in range(c)], "form": pick(rng, "list", "array", "vector") if r == 1 else pick(rng, "list", "array", "fortran"), "none": pick(rng, "none", "list"),
            "bad": pick(rng, "short", "long")}


def run(case, ctx):
    m = np.array(case["m"], float)
    r, c = m.shape
    g = {"list": m.tolist(), "array": m.copy(), "vector": m[0].copy(), "fortran": np.asfortranarray(m)}[case["form"]]
    shape = np.shape(g)
    rows, cols = case["rows"], case["cols"]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        printmat(g, case["label"], " ".join(rows) if rows else (None if case["none"] == "none" else []), " ".join(cols))
    ctx.check(np.shape(g) == shape and np.array_equal(np.reshape(g, (r, c)), m, equal_nan=True), "printing changed the matrix")
    lines = buf.getvalue().split("\n")
    ctx.check(lines[0] == case["label"] + " =", "a matrix is printed under another label", printed=lines[0], label=case["label"])
    ctx.check(len(lines) == r + 3 and lines[-1] == "", "the printed matrix has another number of rows", lines=len(lines), rows=r)
    got = lines[1].split()
    ctx.check(got == cols, "printed column labels are not the given ones", printed=lines[1], given=cols)
    w = max([7] + [len(v) for v in cols] + [len(v) for v in rows or []]) + 1
    for k in range(r):
        f = lines[2 + k].split()
        if rows:
            ctx.check(f[0] == rows[k], "a row is printed under another label", printed=lines[2 + k], given=rows[k])
            f = f[1:]
        if any(len(f"{v:.{w - 3}g}") >= w for v in m[k]):  # wider than their columns
            ctx.obs("rows wider than their columns")
            continue
        ctx.check(len(f) == c, "a printed row lacks entries or runs them together", printed=lines[2 + k], entries=c)
        v = np.array([float(t) for t in f])
        ctx.check(np.allclose(v, m[k], rtol=0.6 * 10.0**-(w - 4), atol=0, equal_nan=True), "a printed entry is not the matrix entry to the digits shown", printed=f, row=m[k].tolist())
    ctx.obs("rows printed", r)
    if rows:
        wrong = rows[:-1] if case["bad"] == "short" else rows + ["extra"]
        if wrong:
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.raises(lambda: printmat(g, "a", " ".join(wrong), " ".join(cols)), Exception, "row labels that do not match the rows")
    ctx.nontrivial()
