"""C10: angle wrapping."""
import numpy as np

from ..core import Violation
from ..kinds import arr, build, build_custom, gen, gen_custom, gen_h, gen_u, make_ref, maybe, pick, logu, state_of
from ..session import expected_step

N = {"quick": 1800, "thorough": 12000}
TAU = 2 * np.pi


def make(rng, i, tier):
    kinds = ("custom", "dub2", "custom", "dub3", "custom", "rot2d")
    kind = kinds[i % len(kinds)]
    if kind == "custom":
        jaxed = i % 60 == 0
        m = "RK45_JAX" if i % 120 == 60 else pick(rng, "RK45", "RK45", "Euler")
        model = pick(rng, "lin", "pend")
        spec = gen_custom(rng, model=model, method=m, limits="none" if maybe(rng, 0.7) else pick(rng, "x", "d"), wrap=True,
                          jax=True if (jaxed or m == "RK45_JAX") else False)
        if not any(c is not None for c in spec["wrap"]):
            spec["wrap"][0] = float(rng.uniform(-10, 10))
            for k in ("xmin", "xmax"):
                spec.pop(k, None)
        ref = make_ref(spec)
        if spec["model"] == "lin" and maybe(rng, 0.5):
            # a kinematic chain: wrapped angle driven by rate, so that it turns many times
            nx = len(spec["A"])
            A = np.zeros((nx, nx))
            for r in range(nx - 1):
                A[r, r + 1] = 1
            A[:, list(ref.wrap)] = 0
            spec["A"] = A.tolist()
        x0 = arr(spec["x0"])
        for j in ref.wrap:
            if maybe(rng, 0.4):  # start outside the range
                x0[j] += pick(rng, -1, 1) * logu(rng, 1, 100 if not spec.get("jax") else 8)
        if not ref.limited and maybe(rng, 0.4):
            x0[-1] += pick(rng, -1, 1) * logu(rng, 1, 40 if not spec.get("jax") else 5)
        spec["x0"] = x0.tolist()
    else:
        m = "RK45_JAX" if (kind == "rot2d" and i % 180 == 5) else ("Euler" if maybe(rng, 0.25) else "RK45")
        spec = gen(rng, kind, method=m, default_p=0.2)
        ref = make_ref(spec)
        j = {"dub2": 2, "dub3": 3, "rot2d": 2}[kind]
        if maybe(rng, 0.5):
            spec["x0"][j] = float(pick(rng, -1, 1) * (np.pi - logu(rng, 1e-7, 0.3)))
        elif maybe(rng, 0.3):
            spec["x0"][j] += pick(rng, -1, 1) * logu(rng, 1, 60)
    steps = []
    u = None
    for _ in range(int(rng.integers(3, 9))):
        if u is None or maybe(rng, 0.4):
            u = gen_u(rng, ref)
        h = gen_h(rng, spec if kind == "custom" else kind, 0.15)
        steps.append([h if maybe(rng, 0.93) else 0.0, u])
    return {"spec": spec, "steps": steps}


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    custom = spec["kind"] == "custom"
    jax = bool(spec.get("jax")) or spec["method"] == "RK45_JAX"
    e = build(spec)
    free = None
    if custom:
        free = build_custom({k: v for k, v in spec.items() if k != "wrap"})
    wr = dict(ref.wrap)
    for k, (h, u) in enumerate(case["steps"]):
        x = state_of(e)
        uc = ref.clip_u(u)
        if h == 0 and spec["method"] == "RK45_JAX":
            continue
        e.step(h, arr(u))
        x1 = state_of(e)
        for i, c in wr.items():
            ctx.check(c - np.pi - 1e-5 * max(1, abs(c)) <= x1[i] <= c + np.pi + 1e-5 * max(1, abs(c)) if jax else
                      c - np.pi - 1e-9 <= x1[i] <= c + np.pi + 1e-9, "an angle is outside its wrap range", angle=x1[i], center=c, start=x, h=h)
        ctx.obs("wrap ranges checked")
        xe, tol = expected_step(ref, x, uc, h, spec["method"])
        tol = tol + (2e-6 * (np.abs(x) + np.abs(xe)) if jax else 1e-14 * np.abs(xe) + (4e-7 * np.abs(xe) if k == 0 else 0))
        ctx.close(x1, xe, tol, "wrapping changed the meaning of an angle, or another state", angles=list(wr), start=x, h=h, centers=wr, step=k)
        if free is not None:
            free.state = x
            free.step(h, arr(u))
            y = state_of(free)
            sc = ref.scale(x, y, h, uc)
            ctx.close(x1, y, sc * (1e-5 if jax else 1e-8) + (1e-5 if jax else 1e-11), "wrapped and unwrapped motion differ", angles=list(wr),
                      start=x, h=h, centers=wr, step=k)
            ctx.obs("unwrapped twins compared")
        for i, c in wr.items():
            turns = int(np.floor((xe[i] - c + np.pi) / TAU))
            if turns:
                ctx.obs("wraps observed")
            if abs(turns) > 1:
                ctx.obs("multi-turn wraps observed")
            if turns and c != 0:
                ctx.obs("wraps about a nonzero centre")
    ctx.nontrivial()
