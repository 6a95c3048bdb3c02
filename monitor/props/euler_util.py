"""C29: fixed-step Euler utility."""
import math

import numpy as np

from safe_autonomy_dynamics.external.aerobench.util import Euler

from ..kinds import arr, maybe, pick

N = {"quick": 12000, "thorough": 80000}


def make(rng, i, tier):
    t0 = pick(rng, 0.0, float(rng.uniform(-50, 50)), float(rng.uniform(-1, 1)))
    step = pick(rng, 0.1, 0.25, 1 / 3, 0.01, float(10**rng.uniform(-3, 1)), float(rng.integers(1, 4)))
    k = int(rng.integers(1, 40)) if maybe(rng, 0.85) else int(rng.integers(40, 400))
    mode = pick(rng, "divides", "partial", "tiny", "bigstep", "nearly")
    if mode == "divides":
        tend = t0 + k * step
    elif mode == "partial":
        tend = t0 + (k - 1 + float(rng.uniform(0.01, 0.99))) * step
    elif mode == "tiny":
        tend = t0 + step * float(rng.uniform(1e-3, 0.9))
    elif mode == "bigstep":
        tend = t0 + step / float(rng.uniform(2, 50))
    else:
        tend = t0 + k * step + float(rng.choice([-1, 1])) * float(10**rng.uniform(-13, -5))
    n = int(rng.integers(1, 7)) if maybe(rng, 0.9) else pick(rng, 13, 16, 17, 32, 64)  # joint simulations
    tol = None if maybe(rng, 0.7) else float(10**rng.uniform(-12, -4))
    return {"t0": float(t0), "tend": float(tend), "step": float(step), "n": n, "y0": rng.uniform(-3, 3, n).tolist(), "tol": tol,
            "f": pick(rng, "lin", "time", "const", "nonlin", "reuse"), "A": (rng.uniform(-1, 1, (n, n)) / n).tolist(), "b": rng.uniform(-2, 2, n).tolist(), "extra": int(rng.integers(1, 4))}


def rhs(case):
    A, b = arr(case["A"]), arr(case["b"])
    buf = np.zeros(case["n"])

    def f(t, y):
        k = case["f"]
        if k == "lin":
            return A @ y + b
        if k == "time":
            return b * math.cos(3 * t) + t
        if k == "const":
            return b.copy()
        if k == "nonlin":
            return np.sin(y) * b - 0.2 * y
        buf[:] = A @ y - b * math.sin(t)
        return buf
    return f


def run(case, ctx):
    f = rhs(case)
    calls = []

    def der(t, y):
        calls.append((float(t), np.array(y)))
        return f(t, y)

    t0, tend, h = case["t0"], case["tend"], case["step"]
    if not tend > t0:
        ctx.raises(lambda: Euler(der, t0, arr(case["y0"]), tend, h), (AssertionError, ValueError), "an empty interval")
        ctx.obs("refused")
        return
    kw = {} if case["tol"] is None else {"time_tol": case["tol"]}
    tol = case["tol"] or 1e-9
    y0 = arr(case["y0"])
    solver = Euler(der, t0, y0, tend, step=h, **kw)
    ctx.check(solver.t == t0 and solver.status == "running", "the integration does not start at the start", t=solver.t)
    ctx.close(solver.y, case["y0"], 0, "the integration does not start at the given state")
    t, y = t0, arr(case["y0"])
    need = math.ceil((tend - t0) / h + 1e-6) + 1
    n = 0
    kept = []
    while solver.status == "running":
        ctx.check(n <= need, "the integration takes more steps than needed", steps=n, need=need, status=solver.status)
        n += 1
        m = len(calls)
        tp, yp = solver.t, np.array(solver.y)
        solver.step()
        ctx.check(len(calls) == m + 1, "a step does not evaluate the derivative once", calls=len(calls) - m)
        ctx.check(calls[-1][0] == tp and np.array_equal(calls[-1][1], yp), "the derivative is not evaluated at the start of the step", t=calls[-1][0], start=tp)
        want_t = tp + h
        last = want_t >= tend - tol
        edge = abs(want_t - (tend - tol)) <= 1e-13 * (1 + abs(tend))
        if edge and solver.t in (tend, want_t):
            last = solver.t == tend
        ctx.check(solver.t == (tend if last else want_t), "a step does not end at the next multiple of the step length or the end time", t=solver.t,
                  expected=tend if last else want_t, end=tend)
        ctx.check(solver.t <= tend, "the integration passes the end time", t=solver.t, end=tend)
        ctx.check((solver.status == "finished") == (solver.t == tend), "the integration is finished other than at the end time", status=solver.status, t=solver.t)
        y = yp + (solver.t - tp) * np.array(f(tp, yp))
        ctx.close(solver.y, y, 1e-13 * (1 + np.abs(y) + np.abs(y - yp)), "a step does not add step length times derivative", h=solver.t - tp)
        ctx.close(solver.yprev, yp, 0, "the previous state is not kept")
        ctx.check(solver.tprev == tp, "the previous time is not kept")
        g = solver.dense_output()
        if n <= 20:
            kept.append((g, tp, solver.t, yp, y))
        for s in (0.0, 1.0, 0.37, 0.5):
            ctx.close(g(tp + s * (solver.t - tp)), yp + s * (y - yp), 1e-9 * (1 + np.abs(y) + np.abs(yp)) + 1e-13 * np.abs(y - yp) * (abs(tp) + 1) / (solver.t - tp),
                      "the interpolant is not linear between the latest two points", s=s)
        ctx.close(y0, case["y0"], 0, "the integration modified the given initial state")
        t = solver.t
    ctx.check(solver.status == "finished" and solver.t == tend, "the integration does not end at the end time", t=solver.t, end=tend)
    fewest = max(1, math.ceil((tend - tol - t0) / h - 1e-9 * (1 + n)))
    ctx.check(n in (fewest, fewest + 1) if abs((tend - tol - t0) / h - round((tend - tol - t0) / h)) < 1e-6 else n == fewest, "the integration does not take the number of steps needed",
              steps=n, needed=fewest)
    for k, (g, tp, tn, yp, y) in enumerate(kept):
        for s in (0.0, 1.0, 0.37):
            ctx.close(g(tp + s * (tn - tp)), yp + s * (y - yp), 1e-9 * (1 + np.abs(y) + np.abs(yp)) + 1e-13 * np.abs(y - yp) * (abs(tp) + 1) / (tn - tp),
                      "an interpolant does not stay that of its own step once the integration has moved on", step=k, s=s)
    ctx.obs("interpolants kept", len(kept))
    yT = np.array(solver.y)
    m = len(calls)
    for _ in range(case["extra"]):
        solver.step()
    ctx.check(solver.status == "finished" and solver.t == tend and np.array_equal(solver.y, yT) and len(calls) == m, "a finished integration does not stay finished")
    ctx.obs("steps followed", n)
    ctx.obs("divides" if abs((tend - t0) / h - round((tend - t0) / h)) < 1e-6 else "partial last step")
    for bad in (0, -h):
        ctx.raises(lambda bad=bad: Euler(der, t0, y0, tend, step=bad), (AssertionError, ValueError), "a step that is not positive")
    ctx.raises(lambda: Euler(der, t0, y0, t0 - h, step=h), (AssertionError, ValueError), "an interval running backwards")
    ctx.nontrivial()
