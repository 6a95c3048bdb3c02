"""C28: F-16 trim cost and constraints."""
import math

import numpy as np
from scipy.optimize import minimize

from safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 import clf16
from safe_autonomy_dynamics.external.aerobench.lowlevel.conf16 import conf16
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model

from .. import f16ref as F
from ..kinds import arr, maybe, pick

N = {"quick": 12000, "thorough": 60000}
TRIM_EVERY = {"quick": 750, "thorough": 200}
WEIGHTS = {1: (100, 100, 100, 0, 0, 0), 2: (1, 100, 10, 500, 0, 0), 3: (1, 100, 10, 100, 500, 0), 4: (1, 100, 10, 0, 0, 500)}


def gen_const(rng, orient):
    g = float(rng.uniform(-.5, .5)) if orient == 2 or maybe(rng, .5) else 0.0
    phi = float(rng.uniform(-math.pi, math.pi) if maybe(rng, .5) else rng.uniform(-1, 1)) if maybe(rng, .6) else 0.0
    rr, pr, tr, thd = [float(v) if maybe(rng, .6) else 0.0 for v in rng.uniform(-.4, .4, 4)]
    return [g, math.sin(g), rr, pr, tr, phi, math.cos(phi), math.sin(phi), thd, float(rng.integers(2)), float(rng.integers(2)), orient]


def make(rng, i, tier):
    orient = 1 + (i // 2) % 4
    model = ("stevens", "morelli")[i % 2]
    if i % TRIM_EVERY[tier] < 8:
        V, alt = float(rng.uniform(350, 750)), float(rng.uniform(1000, 25000))
        g = float(rng.uniform(-.1, .1)) if orient == 2 else 0.0
        tr = float(rng.uniform(-.08, .08)) if orient == 3 else 0.0
        thd = float(rng.uniform(0, .05)) if orient == 4 else 0.0
        const = [g, math.sin(g), 0.0, 0.0, tr, 0.0, 1.0, 0.0, thd, 0.0, 0.0, orient]
        return {"do": "trim", "model": model, "V": V, "alt": alt, "const": const, "adjust": maybe(rng, .5)}
    x = F.gen_f16_state(rng)
    u = F.gen_f16_u(rng)
    n = 7 if maybe(rng, .85 if orient == 3 else .4) else 3
    s = F.gen_f16_u(rng)
    s = s[:2] + [float(rng.uniform(-.15, .6))] if n == 3 else s + [float(rng.uniform(-.15, .6)), float(rng.uniform(-1.2, 1.2)), float(rng.uniform(-1.2, 1.2))]
    if maybe(rng, .3):  # near-steady states have small costs, on the square-root side
        x[0], x[2], x[3], x[4] = float(rng.uniform(400, 600)), 0.0, 0.0, 0.04
        s[:2] = [0.13 + float(rng.uniform(-.02, .02)), -0.75]
        s[2 if n == 3 else 4] = 0.04
        if n == 7:
            s[2:4], s[5:] = [0.0, 0.0], [0.0, 0.04]
        const = [0.0] * 6 + [1.0] + [0.0] * 4 + [orient]
    else:
        const = gen_const(rng, orient)
    return {"do": "point", "model": model, "x": x, "u": u, "s": s, "const": const, "adjust": maybe(rng, .5)}


def constrain(x, u, const):
    """The state the flight condition asks for, given the free components."""
    g, _, rr, pr, tr, phi, _, _, thd, _, _, orient = const
    x = x.copy()
    if orient == 3:
        psidot = np.array([-math.sin(x[4]), math.sin(x[3]) * math.cos(x[4]), math.cos(x[3]) * math.cos(x[4])]) * tr
        x[6:9] = psidot
    else:
        x[3] = phi
        x[4] = x[1] + (g if orient == 2 else 0.0)
        x[6], x[7], x[8] = rr, thd if orient == 4 else pr, 0.0
    x[12] = F.tgear(u[0])
    return x


def cost(xd, x, const):
    g, _, _, _, tr, _, _, _, thd, _, _, orient = const
    wv, wab, wr, wc, wt, wp = WEIGHTS[int(orient)]
    terms = [wv * xd[0]**2, wab * (xd[1]**2 + xd[2]**2), wr * float(np.sum(xd[6:9]**2))]
    if orient == 2:
        terms.append(wc * (xd[11] - x[0] * math.sin(g))**2)
    if orient == 3:
        terms += [wc * xd[11]**2, wt * (xd[5] - tr)**2]
    if orient == 4:
        terms.append(wp * (xd[4] - thd)**2)
    r = float(sum(terms))
    return (math.sqrt(r) if r < 1 else r), r


def check_point(ctx, case, s, x, u):
    const = case["const"]
    model = case["model"]
    x0, u0 = x.copy(), u.copy()
    wx, wu = x.copy(), u.copy()
    if len(s) == 3:
        wu[0], wu[1], wx[1] = s
    else:
        wu[:4], wx[1], wx[3], wx[4] = s[:4], s[4], s[5], s[6]
    wx = constrain(wx, wu, const)
    c0 = list(const)
    if case["adjust"] and model == "stevens":
        r = float(clf16(s, x, u, const))
    else:
        r = float(clf16(s, x, u, const, model, case["adjust"]))
    ctx.check(list(const) == c0, "the trim cost modified the flight condition")
    ctx.close(u, wu, 0, "trimming changed a control it was not given", orient=const[11])
    ctx.close(x, wx, 1e-12 * (1 + np.abs(wx)) + np.where(np.arange(13) == 12, 1e-9, 0), "the trimmed state is not the one the flight condition fixes", orient=const[11], before=x0, s=s)
    ref = F.derivative(x, u, model, case["adjust"])
    xd = np.asarray(subf16_model(x.copy(), u.copy(), model, case["adjust"])[0], float)
    want, raw = cost(xd, x, const)
    ctx.close(r, want, 1e-8 * want + 1e-12, "the trim cost is not the condition's weighted squared deviation", orient=const[11], model=model, raw=raw)
    rw, _ = cost(ref["xd"], x, const)
    # independent derivative: error of each derivative enters through the largest weight
    e = 3e-6 * np.where(np.arange(13) == 12, 0, ref["scale"])
    tol = 1000 * float(np.sum(2 * np.abs(xd) * e + e**2)) + 1000 * 2 * float(np.max(e[[3, 4, 5, 11]])) * (abs(const[4]) + abs(const[8]) + x[0])
    if want >= 1 and rw >= 1:
        ctx.close(r, rw, tol + 1e-6 * want, "the trim cost is not that of the airframe's own derivative", orient=const[11], model=model)
    ctx.check(r >= 0 and math.isfinite(r), "a trim cost is negative or not finite", r=r)
    ctx.obs("costs below one" if raw < 1 else "costs above one")
    ctx.obs("orient %d" % const[11])
    return r, xd


def run(case, ctx):
    const = [float(v) for v in case["const"][:11]] + [int(case["const"][11])]
    case = {**case, "const": tuple(const)}
    if case["do"] == "point":
        x, u = arr(case["x"]), arr(case["u"])
        y, v = x.copy(), u.copy()
        # the constraints alone
        gx, gu = conf16(y, v, case["const"])
        want = constrain(x, u, case["const"])
        ctx.close(np.asarray(gx, float), want, 1e-12 * (1 + np.abs(want)) + np.where(np.arange(13) == 12, 1e-9, 0),
                  "the constrained state is not the one the flight condition fixes", orient=const[11])
        ctx.close(np.asarray(gu, float), u, 0, "the constraints changed a control")
        check_point(ctx, case, list(case["s"]), x.copy(), u.copy())
        # the components the condition fixes do not depend on what they were
        x2 = x.copy()
        fixed = [6, 7, 8, 12] + ([] if const[11] == 3 else [3, 4])
        x2[fixed] += 0.3
        r1 = clf16(list(case["s"]), x.copy(), u.copy(), case["const"], case["model"], case["adjust"])
        r2 = clf16(list(case["s"]), x2, u.copy(), case["const"], case["model"], case["adjust"])
        ctx.close(r2, r1, 1e-12 * abs(r1), "the trim cost depends on state components the condition fixes")
        ctx.obs("trim points")
    else:
        free = 7 if const[11] == 3 else 3
        x0 = np.array([case["V"], 0.05, 0, 0, 0.05, 0, 0, 0, 0, 0, 0, case["alt"], 10.0])
        s = [0.2, -1.0, 0.05] if free == 3 else [0.2, -1.0, 0.0, 0.0, 0.05, math.atan(case["V"] * const[4] / F.G), 0.05]
        trace = []

        def obj(v):
            x, u = x0.copy(), np.zeros(4)
            r = float(clf16(list(v), x, u, case["const"], case["model"], case["adjust"]))
            trace.append(r)
            return r

        best = np.array(s)
        for _ in range(3):
            best = minimize(obj, best, method="Nelder-Mead", options={"maxiter": 250 * free, "xatol": 1e-10, "fatol": 1e-12, "initial_simplex": None}).x
        x, u = x0.copy(), np.zeros(4)
        r, xd = check_point(ctx, case, list(best), x, u)
        ctx.obs("trim evaluations", len(trace))
        ctx.check(min(trace) >= 0, "a trim cost is negative")
        if r < 1e-3:
            # zero cost means steady: translational and rotational accelerations vanish and the condition's rate is met
            m = float(np.max(np.abs(np.concatenate([xd[:3], xd[6:9]]))))
            ctx.check(m <= 2 * r + 1e-9, "a state with vanishing trim cost is not steady", xd=xd, r=r)
            ctx.obs("trims found")
    ctx.nontrivial()
