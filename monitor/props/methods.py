"""C14: integration methods and numeric backends."""
import numpy as np

from ..core import Violation
from ..kinds import (KINDS, arr, build, gen, gen_custom, gen_h, gen_u, logu, make_ref, maybe, pick, state_of)
from ..session import check_dot

N = {"quick": 1440, "thorough": 9000}


def make(rng, i, tier):
    o = ("euler", "jax", "euler", "refuse", "euler", "euler")[i % 6]
    if o == "jax":
        kind = ("rot2d", "sun", "custom", "rot2d", "custom")[(i // 6) % 5]
        a, b = pick(rng, ("RK45", "RK45_JAX"), ("RK45", "RK45_JAX"), ("RK45", "RK45j"), ("Euler", "Eulerj"))
        if kind == "custom":
            spec = gen_custom(rng, method="RK45", limits=pick(rng, "none", "x", "xd", "d"), jax=False, nmax=3)
        else:
            spec = gen(rng, kind)
        if kind == "rot2d":  # single precision resolves neither huge offsets nor instants
            for j in (0, 1):
                spec["x0"][j] = max(-500, min(500, spec["x0"][j]))
        ref = make_ref(spec)
        steps = [[gen_h(rng, spec if kind == "custom" else kind, 0.05), gen_u(rng, ref)] for _ in range(3)]
        return {"oracle": o, "spec": spec, "pair": [a, b], "steps": steps}
    kinds = KINDS + ("custom", "custom", "sun")
    kind = kinds[(i // 6 * 3 + i % 6) % len(kinds)]
    if o == "euler":
        spec = gen_custom(rng, method="Euler", jax=False) if kind == "custom" else gen(rng, kind, method="Euler")
        ref = make_ref(spec)
        return {"oracle": o, "spec": spec, "steps": [[gen_h(rng, spec if kind == "custom" else kind, 0.1), gen_u(rng, ref)] for _ in range(4)]}
    spec = gen_custom(rng, method="RK45", jax=False) if kind == "custom" else gen(rng, kind)
    return {"oracle": "refuse", "spec": spec, "bad": pick(rng, "RK45_JAX", "RK45_JAX", "rk45", "euler", "RK4", "", "Eulers", "LSODA"),
            "steps": [[0.1, gen_u(rng, make_ref(spec))]]}


def variant(spec, m):
    s = dict(spec, method=m.rstrip("j") if m.endswith("j") else m)
    if m.endswith("j") or m == "RK45_JAX":
        s["jax"] = True
    return s


def run(case, ctx):
    spec, o = case["spec"], case["oracle"]
    ref = make_ref(spec)
    ang = list(ref.wrap)
    if o == "euler":
        e = build(spec)
        for k, (h, u) in enumerate(case["steps"]):
            x = state_of(e)
            uc = ref.clip_u(u)
            e.step(h, arr(u) if ref.nu else None)
            want = np.clip(x + h * ref.lim(x, uc), ref.xmin, ref.xmax)
            rel = 3e-6 if ref.f32 else 1e-11
            tol = rel * (np.abs(x) + h * ref.mag(np.clip(x, ref.xmin, ref.xmax), uc)) + 1e-12 + 4e-7 * (k == 0) * np.abs(x)
            ctx.close(state_of(e), want, tol, "an Euler step is not one explicit Euler step", angles=ang, h=h, control=uc, start=x)
            check_dot(ctx, ref, state_of(e), uc, e.state_dot, "Euler: the reported derivative is not at the end of the step", None, "Euler")
            ctx.obs("Euler steps")
        ctx.nontrivial()
        return
    if o == "refuse":
        if spec["kind"] == "sun":
            spec = dict(spec, kw={})
        u = arr(case["steps"][0][1]) if ref.nu else None
        made = []

        def attempt():
            e = build(dict(spec, method=case["bad"]) if spec["kind"] == "custom" else dict(spec, method="RK45"), **(
                {} if spec["kind"] == "custom" else {"integration_method": case["bad"]}))
            made.append(e)
            x = e.state
            try:
                e.step(0.1, u)
            except Exception:
                ctx.check(np.array_equal(x, e.state) and not np.any(e.state_dot), "a refused method changed the entity", method=case["bad"])
                raise
        ctx.raises(attempt, (ValueError, ), "an unavailable integration method", method=case["bad"])
        ctx.obs("refusals")
        ctx.nontrivial()
        return
    sa, sb = variant(spec, case["pair"][0]), variant(spec, case["pair"][1])
    ra, rb = make_ref(sa), make_ref(sb)
    a, b = build(sa), build(sb)
    ctx.check(not np.any(np.asarray(b.state_dot)), "derivative before the first step")
    for k, (h, u) in enumerate(case["steps"]):
        x = state_of(a)
        uc = ref.clip_u(u)
        a.step(h, arr(u) if ref.nu else None)
        b.step(h, arr(u) if ref.nu else None)
        xa, xb = state_of(a), state_of(b)
        mag = ref.mag(np.clip(x, ref.xmin, ref.xmax), uc)
        sc = ref.scale(x, xa, h, uc)
        if case["pair"][0] == "Euler":
            tol = 3e-6 * (np.abs(x) + h * np.max(mag) + np.abs(xa)) + 1e-6
        else:
            xe = ref.exact(x, uc, h)
            tol = ra.tolerance(x, uc, h, xe, sa["method"]) + rb.tolerance(x, uc, h, xe, sb["method"]) + 4e-6 * (np.abs(x) + np.abs(xa)) + 2e-6
            # single precision derivative noise over the step
            tol = tol + 2e-6 * h * np.max(mag)
            if spec["kind"] == "custom" and ref.limited:
                tol = tol + 5e-3 * sc
            ctx.close(xb, xe, tol, "a backend or method deviates from the model", angles=ang, pair=case["pair"], h=h, control=uc, start=x, step=k)
        ctx.close(xb, xa, tol, "methods or backends disagree", angles=ang, pair=case["pair"], h=h, control=uc, start=x, step=k)
        check_dot(ctx, ref, xb, uc, b.state_dot, "derivative differs between backends", None, "RK45_JAX")
        ctx.obs("steps " + case["pair"][1])
        b.state = np.asarray(xa)
        a.state = np.asarray(xa)
    ctx.nontrivial()
