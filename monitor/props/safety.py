"""C30: safety limit verifier, with planted violations."""
import math

import numpy as np

from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier

from ..kinds import maybe, pick

N = {"quick": 24000, "thorough": 80000}
NAMES = ("altitude", "Nz", "v", "alpha", "psMaxAccelDeg", "betaMaxDeg")
COL = {"altitude": 11, "v": 0, "alpha": 1, "betaMaxDeg": 2}


def make(rng, i, tier):
    lim = {}
    for n in NAMES:
        if maybe(rng, 0.6) or n == NAMES[i % 6]:
            if n.endswith("Deg"):
                lim[n] = float(pick(rng, 30.0, 500.0, float(rng.uniform(1, 60)), float(rng.uniform(0.5, 3)))) if maybe(rng, 0.92) else pick(rng, 0.0, 0, 5)
            else:
                lo = {"altitude": (0, 2000), "Nz": (-3, 0.5), "v": (200, 400), "alpha": (-.4, 0.01)}[n]
                hi = {"altitude": (10000, 45000), "Nz": (1.5, 9), "v": (600, 2500), "alpha": (.2, 1.2)}[n]
                lim[n] = [float(rng.uniform(*lo)), float(rng.uniform(*hi))]
                r = rng.random()
                if r < 0.04:
                    lim[n][0] = pick(rng, 0, 0.0)
                elif r < 0.08:
                    lim[n] = [-abs(lim[n][1]), pick(rng, 0, 0.0)]
                elif r < 0.12:
                    lim[n] = [lim[n][1]] * 2  # a value to be held
                elif r < 0.16:
                    lim[n] = [0, 0]
    T = int(rng.integers(1, 12)) if maybe(rng, 0.9) else int(rng.integers(12, 80))
    case = {"limits": lim, "T": T, "llc": maybe(rng, 0.6), "extra_cols": False, "seed": int(rng.integers(1 << 31)), "explicit_none": maybe(rng, 0.5)}
    case["plant"] = None
    case["on"] = pick(rng, None, "lo", "hi")
    if i % 4:
        n = pick(rng, *lim) if lim else None
        if n:
            case["plant"] = {"limit": n, "t": pick(rng, 0, T - 1, int(rng.integers(T))), "side": pick(rng, "lo", "hi"),
                             "by": pick(rng, "barely", "far", "scaled", "barely", "far", "scaled", "barely", "far", "scaled", "nan", "inf")}
    return case


def history(case):
    rng = np.random.default_rng(case["seed"])
    T, n = case["T"], 16 if case["llc"] else 13
    X = rng.uniform(-1, 1, (T, n))
    nz, ps = np.zeros(T), np.zeros(T)
    col = {"altitude": X[:, 11], "Nz": nz, "v": X[:, 0], "alpha": X[:, 1], "psMaxAccelDeg": ps, "betaMaxDeg": X[:, 2]}
    # wild values wherever no limit applies: they must be ignored
    wild = {"altitude": (-5e3, 8e4), "Nz": (-30, 30), "v": (-10, 5e3), "alpha": (-3, 3), "psMaxAccelDeg": (-30, 30), "betaMaxDeg": (-3, 3)}
    for name, c in col.items():
        lim = case["limits"].get(name)
        if lim is None:
            c[:] = rng.uniform(*wild[name], T)
        elif isinstance(lim, list):
            c[:] = rng.uniform(lim[0], lim[1], T)
            if case["on"]:
                c[rng.integers(T)] = lim[0] if case["on"] == "lo" else lim[1]
        else:
            r = math.radians(lim)
            c[:] = rng.uniform(-r, r, T) * (1 - 1e-9)
    other = [k for k in range(3, n) if k != 11]
    X[:, other] = rng.uniform(-1, 1, (T, len(other))) * 10.0**rng.uniform(-2, 5, len(other))
    return X, nz, ps, col


def run(case, ctx):
    limits = case["limits"]
    X, nz, ps, col = history(case)
    bad = case["plant"] is not None
    if bad:
        p = case["plant"]
        lim = limits[p["limit"]]
        sgn = -1 if p["side"] == "lo" else 1
        if isinstance(lim, list):
            edge = lim[0] if p["side"] == "lo" else lim[1]
            width = lim[1] - lim[0] or 1.0
            amount = {"barely": math.ulp(abs(edge)) * 4 + 1e-12, "far": width * 2, "scaled": width * 0.01, "nan": math.nan, "inf": math.inf}[p["by"]]
            v = edge + sgn * amount
        else:
            v = sgn * (math.radians(lim) or 1e-9) * {"barely": 1 + 1e-9, "far": 3.0, "scaled": 1.01, "nan": math.nan, "inf": math.inf}[p["by"]]
        col[p["limit"]][p["t"]] = v
    kw = dict(limits)
    if case["explicit_none"]:
        kw = {n: kw.get(n) for n in NAMES}
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in kw.items()}
    lims = SafetyLimits(**kw)
    llc = LowLevelController() if case["llc"] else None
    ver = SafetyLimitsVerifier(lims, llc) if llc is not None or maybe_flag(case) else SafetyLimitsVerifier(lims)
    res = {"states": X, "Nz_list": list(nz), "ps_list": list(ps), "status": "finished", "times": list(range(len(nz))), "modes": ["x"] * len(nz)}
    X0 = X.copy()
    try:
        ver.verify(res)
        said = True
    except AssertionError:
        said = False
    ctx.check(np.array_equal(X, X0, equal_nan=True) and all(np.array_equal(res[n], given, equal_nan=True) for n, given in (("Nz_list", nz), ("ps_list", ps))), "verifying modified the results")
    if bad:
        ctx.check(not said, "a violated limit is accepted", plant=case["plant"], limits=limits, llc=case["llc"])
        ctx.obs("violations planted in " + case["plant"]["limit"])
    else:
        ctx.check(said, "a safe run is refused", limits=limits, llc=case["llc"])
        ctx.obs("safe runs")
    # a second verification by the same verifier agrees, and without any limit everything is accepted
    try:
        ver.verify(res)
        again = True
    except AssertionError:
        again = False
    ctx.check(again == said, "the verdict changes on verifying again")
    SafetyLimitsVerifier(SafetyLimits(), llc).verify(res)
    # malformed results (state size not a whole number of state vectors) are refused
    if X.size > 13:
        ctx.raises(lambda: ver.verify({**res, "states": X.reshape(-1)[:-1]}), (AssertionError, ValueError, TypeError), "results with an incomplete state vector")
    ctx.obs("verdicts")
    ctx.nontrivial()


def maybe_flag(case):
    return case["seed"] % 2 == 0
