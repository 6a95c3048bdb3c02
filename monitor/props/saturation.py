"""C06: actuator saturation and its warning."""
import jax.numpy as jnp
import numpy as np

from ..kinds import KINDS, METHODS, arr, build, gen, gen_custom, gen_h, gen_u, make_ref, maybe, pick, logu, state_of
from ..session import check_dot, expected_step, step_quiet

N = {"quick": 900, "thorough": 12000}


def make(rng, i, tier):
    kinds = KINDS + ("custom", )
    kind = kinds[i % len(kinds)]
    if kind == "custom":
        spec = gen_custom(rng, wrap=False, jax=False)
    else:
        m = "RK45_JAX" if (kind == "rot2d" and i % 54 == 1) else ("Euler" if maybe(rng, 0.15) else "RK45")
        spec = gen(rng, kind, method=m, default_p=0.3)
    ref = make_ref(spec)
    steps = []
    for _ in range(3):
        u = arr(gen_u(rng, ref))
        for k in range(ref.nu):
            if maybe(rng, 0.45):
                side = pick(rng, -1, 1)
                b = ref.umax[k] if side > 0 else ref.umin[k]
                if np.isfinite(b):
                    mode = pick(rng, "edge", "near", "inside", "far", "huge", "far", "between", "infinite")
                    others = np.abs(np.concatenate([ref.umin, ref.umax]))
                    others = others[np.isfinite(others) & (others > 1.02 * abs(b))]
                    f = {"between": float(pick(rng, *others.tolist())) * rng.uniform(0.5, 1) / abs(b) if len(others) and b else 1.5,
                         "edge": 1.0, "near": 1 + logu(rng, 1e-5, 1e-2), "inside": 1 - logu(rng, 1e-5, 1e-2), "far": logu(rng, 1.05, 20),
                         "huge": logu(rng, 1e3, 1e8)}.get(mode)
                    u[k] = b * f if mode != "infinite" else side * np.inf
        h = gen_h(rng, spec if kind == "custom" else kind, 0.05)
        steps.append([h, u.tolist(), pick(rng, "array", "array", "dict", "list", "jax")])
    return {"spec": spec, "steps": steps}


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    wheel = spec["kind"] in ("rot2d", "sixdof")
    lived = build(spec)  # one craft living through all the controls: it warns each time anew
    for h, u, form in case["steps"]:
        u = arr(u)
        if form == "dict" and spec["kind"] == "custom" and not spec.get("names"):
            form = "array"
        eff = arr(np.float32(u)) if form in ("list", "jax") else u
        uc = ref.clip_u(eff)
        a, b = build(spec), build(spec)
        x = state_of(a)
        action = {"array": u.copy(), "list": u.tolist(), "jax": jnp.array(u), "dict": dict(zip(ref.controls, u.tolist()))}[form]
        wa = step_quiet(a, h, action)
        wb = step_quiet(b, h, uc)
        wl = step_quiet(lived, h, action)
        xa, xb = state_of(a), state_of(b)
        sat = ref.saturating(x, uc, h)
        xe, tol = expected_step(ref, x, uc, h, spec["method"])
        sc = ref.scale(x, xe, h, uc)
        if form == "jax":  # a JAX control carries the whole evaluation in single precision
            tol = tol + 2e-5 * sc + 1e-5
        elif form == "list":  # and a list one carries its own effect in it
            tol = tol + 2e-6 * sc + 1e-9
        ang = list(ref.wrap)
        near = tol if form == "jax" else 1e-6 * sc + 1e-9
        if ref.f32:  # wrapping rounds to the resolution of a full turn
            for j, c in ref.wrap.items():
                near[j] += 1.5e-6 + 3e-7 * abs(c)
        ctx.close(xa, xb, np.where(sat, tol, near), "a control beyond its limits did not act as the nearest limit", angles=ang,
                  control=u, form=form, h=h, start=x)
        ctx.close(xa, xe, tol, "a control did not act as itself clipped to the configured limits", angles=ang, control=u, clipped=uc,
                  form=form, h=h, start=x)
        check_dot(ctx, ref, xa, uc, a.state_dot, "derivative is not that of the control clipped to its limits", None,
                  "RK45_JAX" if form in ("jax", "list") else spec["method"],
                  control=u)
        # the warning: only judged away from float rounding of computed limits
        with np.errstate(all="ignore"):
            over = np.fmax((eff - ref.umax) / np.abs(ref.umax), (ref.umin - eff) / np.abs(ref.umin))
        over = np.where(np.isnan(over), -1, over)
        fuzzy = np.abs(over) < 1e-9
        if form in ("list", "jax"):
            fuzzy = np.abs(over) < 1e-6
        elif wheel:
            fuzzy = fuzzy & (np.arange(ref.nu) >= (2 if spec["kind"] == "rot2d" else 3))
        else:
            fuzzy = np.zeros(ref.nu, dtype=bool)
        beyond = (eff > ref.umax) | (eff < ref.umin)
        warned, again = (any("limit" in t or "clip" in t or "exceed" in t for t in [str(w.message).lower() for w in ws]) for ws in (wa, wl))
        if np.any(beyond & ~fuzzy):
            ctx.check(warned, "no warning for a control beyond its limits", control=u, form=form, limits=[ref.umin, ref.umax])
            ctx.check(again, "no warning for a control beyond its limits, the craft having stepped before", control=u, form=form)
            ctx.obs("saturated steps")
        elif not np.any(fuzzy):
            ctx.check(not warned, "warning for a control within its limits", control=u, form=form, limits=[ref.umin, ref.umax])
            ctx.check(not again, "warning for a control within its limits, the craft having stepped before", control=u, form=form)
            ctx.obs("unsaturated steps")
        ctx.obs("steps " + spec["kind"])
        if len(wb) == 0:
            ctx.obs("clipped twins silent")
    ctx.nontrivial()
