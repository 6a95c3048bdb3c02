"""C26: F-16 aerodynamic and engine data."""
import importlib
import math

import numpy as np

from .. import f16data as D
from .. import f16ref as F
from ..kinds import maybe, pick

N = {"quick": 56000, "thorough": 90000}
P = "safe_autonomy_dynamics.external.aerobench.lowlevel."


def fn(name, attr=None):
    return getattr(importlib.import_module(P + name), attr or name)


ALPHA = [-10 + 5.0 * k for k in range(12)]
EL = [-24 + 12.0 * k for k in range(5)]
B10 = [-30 + 10.0 * k for k in range(7)]
B5 = [5.0 * k for k in range(7)]
AXES = {"cx": (ALPHA, EL), "cm": (ALPHA, EL), "cl": (ALPHA, B5), "cn": (ALPHA, B5), "dlda": (ALPHA, B10), "dldr": (ALPHA, B10), "dnda": (ALPHA, B10),
        "dndr": (ALPHA, B10)}
BOUND = {"cx": 25.0, "cm": 25.0, "cl": 30.0, "cn": 30.0, "dlda": 30.0, "dldr": 30.0, "dnda": 30.0, "dndr": 30.0}
TABLE = {k: getattr(D, k.upper()) for k in AXES}
TABLES = tuple(AXES)
OTHER = ("cz", "cy", "dampp", "thrust", "tgear", "rtau", "pdot", "adc", "morelli", "morelli")


def make(rng, i, tier):
    n = len(TABLES) + len(OTHER)
    k = i % n
    j = i // n
    if k < len(TABLES):
        name = TABLES[k]
        ax = AXES[name]
        r = rng.random()
        case = {"f": name}
        if j % 3 == 0:  # a node, walking all of them over the run
            a, b = (j // 3) % 12, (j // 36) % len(ax[1])
            case["node"] = [a, b]
            case["at"] = [ax[0][a], ax[1][b]]
            case["flip"] = maybe(rng, 0.5) if name in ("cl", "cn") else False
        elif r < 0.4:  # an edge of a cell
            e = maybe(rng, 0.5)
            case["at"] = [float(rng.choice(ax[0])) if e else float(rng.uniform(-10, 45)),
                          float(rng.choice(ax[1])) if not e else float(rng.uniform(-BOUND[name], BOUND[name]))]
        else:
            case["at"] = [float(rng.uniform(-10, 45)), float(rng.uniform(-BOUND[name], BOUND[name]))]
        return case
    name = OTHER[k - len(TABLES)]
    alpha = pick(rng, float(rng.uniform(-10, 45)), ALPHA[j % 12])
    beta = pick(rng, float(rng.uniform(-30, 30)), 0.0)
    el, ail, rdr = [float(v) for v in rng.uniform(-1, 1, 3) * [25, 21.5, 30]]
    if name == "cz":
        at = [alpha, beta, el]
    elif name == "cy":
        at = [beta, ail, rdr]
    elif name == "dampp":
        at = [alpha]
    elif name == "thrust":
        at = [pick(rng, float(rng.uniform(0, 100)), 0.0, 50.0, 100.0, 49.999999), pick(rng, float(rng.uniform(0, 50000)), 1e4 * (j % 6)),
              pick(rng, float(rng.uniform(0, 1)), 0.2 * ((j // 6) % 6))]
    elif name == "tgear":
        at = [pick(rng, float(rng.uniform(0, 1)), 0.77, 0.0, 1.0, math.nextafter(0.77, 1))]
    elif name == "rtau":
        at = [pick(rng, float(rng.uniform(-100, 100)), float(rng.uniform(20, 55)), 25.0, 50.0)]
    elif name == "pdot":
        at = [pick(rng, float(rng.uniform(0, 100)), 50.0, float(rng.uniform(45, 55))), pick(rng, float(rng.uniform(0, 100)), 50.0, float(rng.uniform(45, 55)))]
    elif name == "adc":
        at = [float(rng.uniform(50, 1200)), pick(rng, float(rng.uniform(0, 50000)), 35000.0, 0.0, 34999.999, float(rng.uniform(33000, 37000)))]
    else:
        R = math.pi / 180
        wide = maybe(rng, 0.4)
        s = np.array([1, 1, 1, 1, 1]) * (rng.choice([1.0, 1.0, 1.7], 5) if wide else 1.0)
        lo, hi = np.array([-10, -30, -25, -21.5, -30]) * s, np.array([45, 30, 25, 21.5, 30]) * s
        v = rng.uniform(lo, hi)
        for m in range(5):
            if maybe(rng, 0.1):
                v[m] = (np.array([-10, -30, -25, -21.5, -30]), np.array([45, 30, 25, 21.5, 30]), np.zeros(5))[int(rng.integers(3))][m]
        at = (v * R).tolist() + rng.uniform(-1, 1, 3).tolist() + [11.32, 30.0, float(rng.uniform(150, 950)), 0.35, pick(rng, 0.35, 0.35, 0.3)]
    return {"f": name, "at": [float(v) for v in at]}


def run(case, ctx):
    name, at = case["f"], [float(v) for v in case["at"]]
    if name in TABLE:
        f, ref = fn(name), getattr(F, name)
        scale = float(np.max(np.abs(TABLE[name])))
        if case.get("flip"):
            at[1] = -at[1]
        v = float(f(*at))
        ctx.close(v, ref(*at), 1e-12 * scale + 1e-13, "a table value is not the linear interpolation of the published data", table=name, at=at)
        if "node" in case:
            a, b = case["node"]
            want = TABLE[name][b][a] * (-1 if case["flip"] else 1)
            ctx.close(v, want, 1e-12 * scale + 1e-13, "a table is not the published data at its data points", table=name, at=at)
            ctx.obs(f"nodes {name}")
            ctx.obs("node visits")
        # continuity across every direction, symmetry, and argument types
        lip = scale / 4.0 + 1
        for d in ((1e-9, 0), (-1e-9, 0), (0, 1e-9), (0, -1e-9), (1e-9, -1e-9)):
            y = [at[0] + d[0], at[1] + d[1]]
            if not -10 <= y[0] <= 45:
                continue
            ctx.close(float(f(*y)), v, lip * 1e-9 * 3, "a table jumps between neighbouring points", table=name, at=at, to=y)
        if name in ("cl", "cn"):
            ctx.close(float(f(at[0], -at[1])), -v, 1e-14, "the rolling or yawing moment is not odd in sideslip", table=name, at=at)
        ctx.obs("interpolations " + name)
    elif name == "cz":
        v = float(fn("cz")(*at))
        ctx.close(v, F.cz(*at), 1e-12, "a coefficient is not the published formula's", table=name, at=at)
        ctx.close(float(fn("cz")(at[0], -at[1], at[2])), v, 1e-14, "the normal force is not even in sideslip", at=at)
        ctx.obs("interpolations cz")
    elif name == "cy":
        v = float(fn("cy")(*at))
        ctx.close(v, F.cy(*at), 1e-13, "a coefficient is not the published formula's", table=name, at=at)
        ctx.close(float(fn("cy")(*[-q for q in at])), -v, 1e-14, "the side force is not odd", at=at)
        ctx.obs("interpolations cy")
    elif name == "dampp":
        v = np.asarray(fn("dampp")(*at), float)
        ctx.close(v, F.dampp(*at), 1e-10, "a table value is not the linear interpolation of the published data", table=name, at=at)
        if at[0] in ALPHA:
            ctx.close(v, [r[ALPHA.index(at[0])] for r in D.DAMPP], 1e-10, "a table is not the published data at its data points", table=name, at=at)
            ctx.obs("nodes dampp")
        for d in (1e-9, -1e-9):
            if -10 <= at[0] + d <= 45:
                ctx.close(np.asarray(fn("dampp")(at[0] + d), float), v, 1e-7, "a table jumps between neighbouring points", table=name, at=at)
        ctx.obs("interpolations dampp")
    elif name == "thrust":
        v = float(fn("thrust")(*at))
        ctx.close(v, F.thrust(*at), 1e-7, "thrust is not the interpolation of the published data", at=at)
        for k, eps in ((0, 1e-9), (1, 1e-6), (2, 1e-10)):
            for sg in (-1, 1):
                y = list(at)
                y[k] += sg * eps
                if y[0] < 0 or y[1] < 0 or y[2] < 0:
                    continue
                ctx.close(float(fn("thrust")(*y)), v, 1e-3, "thrust jumps between neighbouring points", at=at, to=y)
        ctx.obs("interpolations thrust")
    elif name == "tgear":
        v = float(fn("tgear")(*at))
        ctx.close(v, F.tgear(*at), 1e-10, "throttle gearing is not the published one", at=at)
        ctx.close(v, float(fn("tgear")(math.nextafter(at[0], 2))), 5e-3, "throttle gearing jumps", at=at)
        ctx.obs("engine values")
    elif name == "rtau":
        v = float(fn("rtau")(*at))
        ctx.close(v, F.rtau(*at), 1e-12, "the engine time constant is not the published one", at=at)
        ctx.check(0.1 - 1e-12 <= v <= 1 + 1e-12, "the engine time constant leaves its range", at=at, v=v)
        ctx.obs("engine values")
    elif name == "pdot":
        v = float(fn("pdot")(*at))
        ctx.close(v, F.pdot(*at), 1e-9, "the engine lag is not the published one", at=at)
        if at[0] == at[1]:
            ctx.close(v, 0, 0, "engine power moves although it is the commanded one", at=at)
        else:
            if (at[0] >= 50) == (at[1] >= 50):
                ctx.check(v * (at[1] - at[0]) > 0, "engine power moves away from the commanded one", at=at, v=v)
        ctx.obs("engine values")
    elif name == "adc":
        m, q = fn("adc")(*at)
        wm, wq = F.air(*at)
        ctx.close(float(m), wm, 1e-9, "Mach number is not the standard atmosphere's", at=at)
        ctx.close(float(q), wq, 1e-9 * wq, "dynamic pressure is not the standard atmosphere's", at=at)
        ctx.obs("atmosphere values")
    else:
        f = fn("morellif16", "Morellif16")
        v = np.asarray(f(*at), float)
        ctx.close(v, F.morelli(*at), 1e-9 * (1 + np.abs(v)), "the polynomial model is not the published one", at=at)
        R = math.pi / 180
        lim = np.array([[-10, 45], [-30, 30], [-25, 25], [-21.5, 21.5], [-30, 30]]) * R
        sat = np.clip(at[:5], lim[:, 0], lim[:, 1]).tolist() + at[5:]
        ctx.close(np.asarray(f(*sat), float), v, 1e-12 * (1 + np.abs(v)), "the polynomial model does not saturate its inputs", at=at)
        for k in range(8):
            for sg in (-1e-9, 1e-9):
                y = list(at)
                y[k] += sg
                ctx.close(np.asarray(f(*y), float), v, 1e-6 * (1 + np.abs(v)), "the polynomial model jumps between neighbouring points", at=at, to=y)
        ctx.obs("polynomial evaluations")
    ctx.nontrivial()
