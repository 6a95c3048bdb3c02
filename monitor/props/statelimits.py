"""C09: state limits."""
import numpy as np

from ..kinds import arr, build, gen, gen_custom, gen_h, gen_u, make_ref, maybe, pick, logu, state_of, neutral
from ..session import check_dot, expected_step

N = {"quick": 1120, "thorough": 10000}


def make(rng, i, tier):
    kinds = ("dub2", "dub3", "rot2d", "sixdof", "custom", "custom", "custom", "dub3")
    kind = kinds[i % len(kinds)]
    if kind == "custom":
        m = "RK45_JAX" if i % 80 == 4 else pick(rng, "RK45", "RK45", "Euler")
        spec = gen_custom(rng, method=m, limits=pick(rng, "x", "xd", "x"), nmax=3 if m == "RK45_JAX" else 5)
    else:
        m = "RK45_JAX" if i % 80 == 2 else ("Euler" if maybe(rng, 0.25) else "RK45")
        spec = gen(rng, kind, method=m, default_p=0.3)
    ref = make_ref(spec)
    steps = []
    sgn = np.where(rng.random(ref.nu) < 0.5, -1, 1)
    for _ in range(int(rng.integers(4, 9))):
        mode = pick(rng, "push", "push", "push", "back", "rand", "zero")
        u = arr(gen_u(rng, ref))
        if mode == "push" or mode == "back":
            if maybe(rng, 0.25):
                sgn = np.where(rng.random(ref.nu) < 0.5, -1, 1)
            if mode == "back":
                sgn = -sgn
            lim = np.where(sgn > 0, np.where(np.isfinite(ref.umax), ref.umax, 2), np.where(np.isfinite(ref.umin), ref.umin, -2))
            u = lim * rng.uniform(0.3, 1, ref.nu)
        elif mode == "zero":
            u = np.zeros(ref.nu)
        h = gen_h(rng, spec if kind == "custom" else kind, 0.1)
        if kind in ("rot2d", "sixdof"):  # the time in which the rate limit is reached
            h = round(float(np.min(np.maximum(ref.velmax, 1e-3) / np.maximum(ref.acc, 1e-3))) * logu(rng, 0.05, 2), 9)
            h = min(h, 6 / max(float(np.max(ref.velmax)), 1e-2))
        steps.append([h, np.asarray(u).tolist()])
    case = {"spec": spec, "steps": steps}
    if maybe(rng, 0.2):
        case["outside"] = logu(rng, 1e-3, 3)
        case["osgn"] = [pick(rng, -1, 1) for _ in range(ref.nx)]
    return case


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    jax = spec.get("jax") or spec["method"] == "RK45_JAX"
    eps = 2e-6
    lo = ref.xmin - eps * np.abs(np.where(np.isfinite(ref.xmin), ref.xmin, 1))
    hi = ref.xmax + eps * np.abs(np.where(np.isfinite(ref.xmax), ref.xmax, 1))
    outside = "outside" in case
    if outside:
        x0 = arr(spec["x0"])
        for i, s in enumerate(case["osgn"]):
            if i in ref.wrap:
                continue
            b = ref.xmax[i] if s > 0 else ref.xmin[i]
            if np.isfinite(b):
                room = abs(b) if b else 1
                x0[i] = b + s * case["outside"] * room * (0.2 if spec["kind"] in ("dub2", "dub3") and s < 0 else 1)
        spec = dict(spec, x0=x0.tolist())
    e = build(spec)
    for k, (h, u) in enumerate(case["steps"]):
        x = state_of(e)
        uc = ref.clip_u(u)
        e.step(h, arr(u))
        x1 = state_of(e)
        ctx.check(np.all(x1 >= lo) and np.all(x1 <= hi), "a state left its limits", state=x1, lower=ref.xmin, upper=ref.xmax, step=k,
                  method=spec["method"])
        ctx.obs("bounds checked")
        sd = np.asarray(e.state_dot, float)
        at_lo, at_hi = x1 <= ref.xmin, x1 >= ref.xmax
        ctx.check(np.all(sd[at_lo] >= 0) and np.all(sd[at_hi] <= 0), "the reported derivative leads out of a limit", state=x1, dot=sd, step=k)
        if np.any(at_lo | at_hi):
            ctx.obs("steps ending at a limit")
        if outside and k == 0:
            continue
        xe, tol = expected_step(ref, x, uc, h, spec["method"])
        ctx.close(x1, xe, tol, "motion at or near a limit deviates from the limited model", angles=list(ref.wrap), step=k, h=h, control=uc, start=x,
                  method=spec["method"])
        held = (x <= ref.xmin) | (x >= ref.xmax)
        if np.any(held):
            ctx.obs("steps starting at a limit")
            left = held & (x1 > ref.xmin * (1 + np.sign(ref.xmin) * 1e-5)) & (x1 < ref.xmax * (1 - np.sign(ref.xmax) * 1e-5))
            if np.any(left):
                ctx.obs("returns from a limit")
        ctx.obs("steps " + spec["kind"] + " " + spec["method"])
    ctx.nontrivial()
