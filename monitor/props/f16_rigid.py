"""C25: F-16 rigid-body mechanics."""
import math

import numpy as np

from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model

from .. import f16ref as F
from ..kinds import arr, pick, maybe

N = {"quick": 40000, "thorough": 120000}


def make(rng, i, tier):
    return {"whole": [*(rng.uniform(-.4, .4, 2)).tolist(), *rng.uniform(-1.4, 1.4, 3).tolist(), maybe(rng, 0.5)] if maybe(rng, 0.1) else None, "x": F.gen_f16_state(rng), "u": F.gen_f16_u(rng), "model": ("stevens", "morelli")[i % 2], "adjust": maybe(rng, 0.6),
            "pos": rng.uniform(-1e6, 1e6, 2).tolist(), "dpsi": float(rng.uniform(-7, 7)), "form": pick(rng, "array", "array", "list")}


def call(case, x, u=None, form=None):
    u = case["u"] if u is None else u
    if case["adjust"]:
        out = subf16_model(x, arr(u), case["model"]) if case["x"][0] > 500 else subf16_model(x, arr(u), case["model"], True)
    else:
        out = subf16_model(x, arr(u), case["model"], adjust_cy=False)
    xd, nz, ny, az, ay = out
    return np.asarray(xd, float), float(nz), float(ny), float(az), float(ay)


def run(case, ctx):
    x = arr(case["x"])
    u = arr(case["u"])
    xi = x.copy() if case["form"] == "array" else list(case["x"])
    before = list(case["x"])
    xd, nz, ny, az, ay = call(case, xi)
    ctx.check([float(v) for v in xi] == before, "computing the derivative modified the given state")
    ref = F.derivative(x, u, case["model"], case["adjust"])
    sc = ref["scale"]
    groups = (("ground velocity is not the airspeed vector rotated by the attitude", (9, 10, 11)),
              ("Euler-angle rates do not follow the body rates", (3, 4, 5)),
              ("airspeed, angle of attack or sideslip rate is not due to force, gravity and rotation", (0, 1, 2)),
              ("body rates do not follow moments, inertia and engine momentum", (6, 7, 8)))
    for what, idx in groups:
        idx = list(idx)
        ctx.close(xd[idx], ref["xd"][idx], 3e-6 * sc[idx] + 1e-9, what, state=x, u=u, model=case["model"])
    cpow, power = F.tgear(u[0]), x[12]
    if min(abs(cpow - 50), abs(power - 50)) > 1e-9 or power == 50.0:
        ctx.close(xd[12], ref["xd"][12], 1e-9 * 500, "power does not follow the engine lag", state=x, u=u)
    ctx.close(xd[6:9], ref["wdot"], 2e-3 * ref["rot"] + 1e-9, "body rates are not those of the published inertias", state=x, u=u, model=case["model"])
    ctx.close([az, ay], [ref["az"], ref["ay"]], 5e-6 * ref["fs"], "reported acceleration is not the sensed one", state=x, u=u, adjust=case["adjust"])
    ctx.close([nz, ny], [ref["Nz"], ref["Ny"]], 5e-6 * ref["fs"] / F.G, "load factor is not the sensed acceleration over g", state=x, u=u)
    ctx.check(xd.shape == (13, ), "the derivative changed shape")
    # invariants, by the code alone
    ctx.close(xd[9]**2 + xd[10]**2 + xd[11]**2, x[0]**2, 1e-9 * x[0]**2, "ground speed is not the airspeed", state=x)
    y = x.copy()
    y[9:11] = case["pos"]
    yd = call(case, y)
    ctx.close(yd[0], xd, 1e-12 * sc, "the derivative depends on horizontal position")
    ctx.close(yd[1:], [nz, ny, az, ay], 1e-12 * ref["fs"], "the load factors depend on horizontal position")
    y = x.copy()
    y[5] += case["dpsi"]
    yd = call(case, y)
    keep = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12]
    ctx.close(yd[0][keep], xd[keep], 1e-9 * sc[keep], "the derivative depends on heading")
    c, s = math.cos(case["dpsi"]), math.sin(case["dpsi"])
    ctx.close(yd[0][9:11], [c * xd[9] - s * xd[10], s * xd[9] + c * xd[10]], 1e-9 * x[0], "ground velocity does not turn with heading")
    ctx.close(yd[1:], [nz, ny, az, ay], 1e-9 * ref["fs"], "the load factors depend on heading")
    if case.get("whole"):  # the nearest whole-number state, given as integers and as the same numbers in floating point
        w = np.rint(x)
        w[1:6] = np.rint(arr(case["whole"][:5]))
        wi = w.astype(int) if case["whole"][5] else [int(v) for v in w]
        a, b = call(case, wi), call(case, w)
        ctx.close(a[0], b[0], 1e-9 * (1 + np.abs(b[0])), "a state of whole numbers has another derivative when given as integers", state=w)
        ctx.close(a[1:], b[1:], 1e-9 * (1 + np.abs(b[1:])), "a state of whole numbers has other load factors when given as integers", state=w)
        wu = np.rint(u)
        ctx.close(call(case, w, wu.astype(int))[0], call(case, w, wu)[0], 1e-9 * (1 + np.abs(b[0])), "whole-number controls act otherwise when given as integers", u=wu)
        ctx.check([int(v) for v in wi] == [int(v) for v in w], "computing the derivative modified the given state")
        ctx.obs("integer states")
    ctx.obs("derivatives " + case["model"])
    ctx.obs("alpha band %d" % int((x[1] * F.DEG + 10) // 5))
    ctx.nontrivial()
