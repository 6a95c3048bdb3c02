"""C34: generated model matrices."""
import numpy as np
import scipy.linalg

from safe_autonomy_dynamics import cwh
from safe_autonomy_dynamics import integrators as itg
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics

from ..kinds import arr, cw_accel, gen_h, logu, maybe, pick

N = {"quick": 8000, "thorough": 40000}
MODES = (("cwh", "2d"), ("cwh", "3d"), ("int", "1d"), ("int", "2d"), ("int", "3d"))


def make(rng, i, tier):
    fam, mode = MODES[i % 5]
    m = pick(rng, 12, 1, 1.0, logu(rng, 1e-3, 1e5), int(rng.integers(1, 500)))
    c = {"family": fam, "mode": mode, "m": m, "form": pick(rng, "kw", "pos"), "default": maybe(rng, 0.15)}
    if fam == "cwh":
        c["n"] = pick(rng, 0.001027, logu(rng, 1e-5, 0.1), 0.0, logu(rng, 1e-4, 1e-2), -logu(rng, 1e-4, 1e-2))
    else:
        c["n"] = pick(rng, 0, 0.0, logu(rng, 1e-4, 5), int(rng.integers(1, 4)))
    k = int(mode[0])
    c["x"] = (rng.uniform(-1, 1, 2 * k) * np.repeat([logu(rng, 1, 1e4), logu(rng, 1e-2, 20)], k)).tolist()
    c["u"] = rng.uniform(-1, 1, k).tolist()
    c["h"] = min(gen_h(rng, "cwh", 0.1), 200.0)
    if fam == "int":
        c["h"] = min(c["h"], 20 / max(float(c["n"]), 0.1))
    c["bad"] = pick(rng, "4d", "1D", "", "3", None, 3, "0d")
    return c


def run(case, ctx):
    fam, mode, m, n = case["family"], case["mode"], case["m"], case["n"]
    k = int(mode[0])
    gen = cwh.generate_cwh_matrices if fam == "cwh" else itg.generate_dynamics_matrices
    if case["default"] and mode == ("2d" if fam == "cwh" else "1d"):
        out = gen(m, n)
    elif case["default"] and fam == "int" and n == 0:
        out = gen(m, mode=mode)
    elif case["form"] == "pos":
        out = gen(m, n, mode)
    else:
        out = gen(m=m, mode=mode, **({"n": n} if fam == "cwh" else {"damping": n}))
    A, B = (np.asarray(v) for v in out)
    ctx.check(A.shape == (2 * k, 2 * k) and B.shape == (2 * k, k), "generated matrices have the wrong shape", A=A.shape, B=B.shape)
    ctx.check(np.issubdtype(A.dtype, np.floating) and A.dtype.itemsize >= 8 and np.issubdtype(B.dtype, np.floating) and B.dtype.itemsize >= 8,
              "generated matrices are not in double precision", A=str(A.dtype), B=str(B.dtype))

    def accel(p, v, u):
        if fam == "int":
            return u / m - n * v
        p3, v3 = np.zeros(3), np.zeros(3)
        p3[:k], v3[:k] = p, v
        return cw_accel(n, p3, v3)[:k] + u / m
    wa, wb = np.zeros((2 * k, 2 * k)), np.zeros((2 * k, k))
    for j in range(k):  # column by column from the equations of motion
        e = np.eye(k)[j]
        wa[:, j] = np.concatenate([np.zeros(k), accel(e, np.zeros(k), np.zeros(k))])
        wa[:, k + j] = np.concatenate([e, accel(np.zeros(k), e, np.zeros(k))])
        wb[:, j] = np.concatenate([np.zeros(k), accel(np.zeros(k), np.zeros(k), e)])
    ctx.close(A, wa, 1e-14 * np.abs(wa), "the generated state matrix is not that of the documented equations", family=fam, mode=mode, m=m, n=n)
    ctx.close(B, wb, 1e-14 * np.abs(wb), "the generated input matrix is not that of the documented equations", family=fam, mode=mode, m=m, n=n)
    A0, B0 = A.copy(), B.copy()
    A += 5.0
    B += 5.0
    again = gen(m, n, mode)
    ctx.check(np.array_equal(again[0], A0) and np.array_equal(again[1], B0), "changing generated matrices changed those generated later", family=fam)
    # a user's linear model over them
    d = BaseLinearODESolverDynamics(*gen(m, n, mode))
    x, u, h = arr(case["x"]), arr(case["u"]), case["h"]
    M = np.zeros((3 * k, 3 * k))
    M[:2 * k, :2 * k], M[:2 * k, 2 * k:] = wa, wb
    want = (scipy.linalg.expm(M * h) @ np.concatenate([x, u]))[:2 * k]
    y, _ = d.step(h, x.copy(), u.copy())
    from scipy.integrate import solve_ivp
    ref = solve_ivp(lambda t, s: wa @ s + wb @ u, (0, h), x).y[:, -1]
    sc = np.concatenate([np.full(k, np.max(np.abs(v))) for v in (np.concatenate([x[:k], want[:k]]), np.concatenate([x[k:], want[k:]]))])
    err = np.abs(ref - want)
    ctx.close(y, want, 10 * np.maximum(err, 0.2 * np.concatenate([np.full(k, np.max(err[:k])), np.full(k, np.max(err[k:]))])) + 1e-9 * sc + 1e-12,
              "a linear model over generated matrices does not follow the documented equations", family=fam, mode=mode, h=h)
    ctx.raises(lambda: gen(m, n, case["bad"]), Exception, "an unknown dimensionality", mode=case["bad"])
    ctx.obs(f"matrices {fam} {mode}")
    ctx.nontrivial()
