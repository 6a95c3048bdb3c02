"""C23: user-defined models."""
import numpy as np
from scipy.integrate import solve_ivp

from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics, BaseODESolverDynamics

from ..kinds import LIBDYN, arr, build_custom_dynamics, gen_custom, gen_libdyn, logu, make_ref, maybe, pick
from ..session import check_dot, expected_step, gen_steps, run_session

N = {"quick": 2000, "thorough": 10000}


def make(rng, i, tier):
    o = ("session", "session", "direct", "library", "session", "library", "refuse", "direct", "timed")[i % 9]
    if o == "timed":
        n = int(rng.integers(1, 4))
        m = "RK45_JAX" if (i // 9) % 10 == 3 else pick(rng, "RK45", "RK45", "Euler")
        return {"oracle": o, "n": n, "method": m, "b": rng.uniform(-2, 2, n).tolist(), "w": logu(rng, 0.1, 5), "x0": rng.uniform(-3, 3, n).tolist(),
                "samples": int(rng.integers(0, 4)) if m == "RK45" else 0,
                "steps": [[logu(rng, 1e-3, 2.0), rng.uniform(-1, 1, n).tolist()] for _ in range(int(rng.integers(2, 7)))]}
    if o == "refuse":
        return {"oracle": o, "shapes": [int(v) for v in rng.integers(1, 5, 4)], "bad": pick(rng, "rect", "rows", "row", "fewer", "tall", "vecA", "vecB", "cubeA", "cubeB", "none"),
                "jax": maybe(rng, 0.1), "spec": gen_custom(rng, model="lin", method="RK45", limits="none")}
    if o == "library":
        base = LIBDYN[(i // 9) % len(LIBDYN)]
        m = "RK45_JAX" if (base in ("rot2d", "sun") and maybe(rng, 0.15)) else pick(rng, "RK45", "RK45", "Euler")
        spec = gen_libdyn(rng, base=base, method=m)
        ref = make_ref(spec)
        steps = gen_steps(rng, ref, spec, int(rng.integers(2, 6)), long_p=0.05)
        if base == "sixdof":
            hm = 6 / max(float(np.max(ref.velmax)), 1e-2)
            steps = [[min(h, hm), u] for h, u in steps]
        return {"oracle": o, "spec": spec, "steps": steps}
    m = "RK45_JAX" if (i // 9) % 12 == 3 and o == "session" else pick(rng, "RK45", "RK45", "Euler")
    spec = gen_custom(rng, method=m, nmax=3 if m == "RK45_JAX" else 6, limits=pick(rng, "none", "x", "d", "xd"))
    ref = make_ref(spec)
    case = {"oracle": o, "spec": spec, "steps": gen_steps(rng, ref, spec, int(rng.integers(2, 7)))}
    if o == "direct":
        case["states"] = []
        lo, hi = np.maximum(ref.xmin, -3), np.minimum(ref.xmax, 3)
        for _ in case["steps"]:
            x = rng.uniform(np.minimum(lo, hi), np.maximum(lo, hi))
            for j, c in ref.wrap.items():
                x[j] = c + rng.uniform(-np.pi, np.pi)
            case["states"].append(x.tolist())
    return case


class Timed(BaseODESolverDynamics):
    """dx/dt = b cos(w t) + u, t being the time since the beginning of the step (as documented)."""

    def __init__(self, b, w, **kw):
        self.b, self.w, self.times = b, w, []
        super().__init__(**kw)

    def _compute_state_dot(self, t, state, control):
        if not self.use_jax:
            self.times.append(float(t))
        return self.np.array(self.b) * self.np.cos(self.w * t) + control


def timed(case, ctx):
    b, w, m = arr(case["b"]), case["w"], case["method"]
    d = Timed(b, w, integration_method=m, **({"use_jax": True} if m == "RK45_JAX" else {}), **({"trajectory_samples": case["samples"]} if case["samples"] else {}))
    x = arr(case["x0"])
    for k, (h, u) in enumerate(case["steps"]):
        u = arr(u)
        d.times = []
        y, sd = d.step(h, x.copy(), u.copy())
        y, sd = np.asarray(y, float), np.asarray(sd, float)
        exact = x + b / w * np.sin(w * h) + u * h
        scale = np.abs(x) + np.abs(b) * h + np.abs(u) * h
        if m == "Euler":
            want, tol = x + h * (b + u), 1e-12 * (1 + scale)
        elif m == "RK45":
            sol = solve_ivp(lambda t, _: b * np.cos(w * t) + u, (0, h), x, **({"t_eval": np.linspace(0, h, case["samples"] + 1)[1:]} if case["samples"] else {}))
            want, tol = exact, 10 * np.abs(sol.y[:, -1] - exact) + 1e-6 * (1 + scale)
        else:
            want, tol = exact, 2e-4 * (1 + scale)
        ctx.close(y, want, tol, "a model that depends on the time within the step deviates from its equation", h=h, method=m, step=k)
        ctx.close(sd, b * np.cos(w * h) + u, (1e-5 if m == "RK45_JAX" else 1e-12) * (1 + np.abs(b) + np.abs(u)),
                  "the derivative of a time-dependent model is not that at the end of the step", h=h, method=m, step=k)
        if d.times:  # (the solver may probe beyond the end of the step to choose its first substep)
            ctx.check(min(d.times) == 0.0, "the time given to a model does not start at the beginning of the step", h=h, first=min(d.times))
        ctx.obs("time-dependent steps " + m)
        x = y
    ctx.nontrivial()


def wrapped(ctx, ref, spec, x, k):
    for i, c in ref.wrap.items():
        lo, hi = ref.xmin[i], ref.xmax[i]
        if lo > c - np.pi or hi < c + np.pi:
            continue  # wrapping and limits dispute the angle
        m = np.pi + 1e-5 * max(1, abs(c)) if spec["method"] == "RK45_JAX" else np.pi + 1e-9
        ctx.check(abs(x[i] - c) <= m, "an angle is not wrapped about its configured centre", angle=x[i], center=c, step=k)
        ctx.obs("angles wrapped")


def run(case, ctx):
    if case["oracle"] == "timed":
        return timed(case, ctx)
    o, spec = case["oracle"], case["spec"]
    if o in ("session", "library"):
        run_session(case, ctx, label="user model" if o == "session" else "library model with user limits", every=lambda e, r, x, u, h, x1, k: wrapped(ctx, r, spec, x1, k))
        ctx.obs("histories " + o)
        ctx.obs("model " + (spec.get("base") or spec["model"]))
        for k in ("xmin", "xmax", "dmin", "dmax", "wrap"):
            if spec.get(k) is not None:
                ctx.obs("configured " + k + (" vector" if isinstance(spec[k], list) else " scalar"))
        return
    if o == "direct":
        ref = make_ref(spec)
        d = build_custom_dynamics(spec)
        for k, ((h, u), x) in enumerate(zip(case["steps"], case["states"])):
            x, u = arr(x), ref.clip_u(arr(u))
            xi, ui = x.copy(), u.copy()
            y, sd = d.step(h, xi, ui)
            ctx.check(np.array_equal(xi, x) and np.array_equal(ui, u), "a dynamics step modified its arguments")
            xe, tol = expected_step(ref, x, u, h, spec["method"])
            ctx.close(y, xe, tol, "a dynamics step deviates from the model", angles=list(ref.wrap), h=h, control=u, start=x, step=k)
            check_dot(ctx, ref, np.asarray(y, float), u, sd, "the derivative returned is not the model's at the new state", method=spec["method"], step=k)
            wrapped(ctx, ref, spec, np.asarray(y, float), k)
            # and asked for directly
            dot = d.compute_state_dot(0.0, xi, ui)
            check_dot(ctx, ref, x, u, dot, "the derivative computed is not the model's", method=spec["method"], step=k)
        ctx.obs("direct steps", len(case["steps"]))
        ctx.nontrivial()
        return
    n, m, r, _ = case["shapes"]
    A, B = np.ones((n, n)), np.ones((n, m))
    b = case["bad"]
    if b == "rect":
        A = np.ones((n, n + r))
    elif b == "rows":
        B = np.ones((n + r, m))
    elif b == "row":
        n += 1
        A, B = np.ones((n, n)), np.ones((1, m))
    elif b == "fewer":
        A, B = np.ones((n + r, n + r)), np.ones((n, m))
    elif b == "tall":
        A = np.ones((n + r, n))
    elif b == "cubeB":
        B = np.ones((n, m, r))
    elif b == "none":
        A = np.ones(())
    elif b == "vecA":
        A = np.ones(n)
    elif b == "vecB":
        B = np.ones(n)
    else:
        A = np.ones((n, n, n))
    kw = {"use_jax": True} if case["jax"] else {}
    ctx.raises(lambda: BaseLinearODESolverDynamics(A, B, **kw), (AssertionError, ValueError), "matrices of mismatched shape", kind=b)
    A = np.array(spec["A"], dtype=float)
    B = np.array(spec["B"], dtype=float)
    d = BaseLinearODESolverDynamics(A, B, **kw)
    x, u = np.ones(A.shape[0]), np.ones(B.shape[1])
    want = spec and arr(spec["A"]) @ x + arr(spec["B"]) @ u
    A += 7.0
    B += 7.0
    ctx.close(np.asarray(d.compute_state_dot(0.0, x, u), float), want, (1e-5 if case["jax"] else 1e-12) * (1 + np.abs(want)),
              "changing the given matrices afterwards changed the model")
    ctx.raises(lambda: BaseLinearODESolverDynamics(A, B, integration_method="RK4").step(0.1, x, u), (ValueError, AssertionError),
               "an unknown integration method")
    ctx.raises(lambda: BaseLinearODESolverDynamics(A, B, integration_method="RK45_JAX").step(0.1, x, u), (ValueError, AssertionError),
               "the JAX method without the JAX backend")
    ctx.raises(lambda: BaseLinearODESolverDynamics(A, B, trajectory_samples=1.5), (AssertionError, ValueError, TypeError), "a fractional number of samples")
    ctx.obs("refusals of bad configuration")
    ctx.nontrivial()
