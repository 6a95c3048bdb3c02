"""C11: the reported derivative."""
import numpy as np

from safe_autonomy_dynamics.base_models import BaseODESolverDynamics

from ..kinds import KINDS, ArrayEntity, arr, build, gen, gen_custom, gen_h, gen_u, make_ref, maybe, pick, logu, state_of
from ..session import check_dot

N = {"quick": 3300, "thorough": 14000}


class Clocked(BaseODESolverDynamics):
    """User-defined model whose derivative depends on the time within the step: x' = u + a cos(w t + p)."""

    def __init__(self, a, w, p, **kw):
        self.a, self.w, self.p = a, w, p
        super().__init__(**kw)

    def _compute_state_dot(self, t, state, control):
        return control + self.a * self.np.cos(self.w * t + self.p) * self.np.ones(1)


def make(rng, i, tier):
    kinds = KINDS + ("sun", "custom", "custom", "custom", "clock")
    kind = kinds[i % len(kinds)]
    if kind == "clock":
        return {"oracle": "clock", "a": rng.uniform(0.2, 3), "w": logu(rng, 0.1, 3), "p": rng.uniform(-3, 3), "lim": pick(rng, None, rng.uniform(0.3, 2)),
                "method": pick(rng, "RK45", "Euler"), "samples": pick(rng, 0, 0, 1, int(rng.integers(2, 12))), "steps": [[logu(rng, 0.01, 2), [rng.uniform(-1, 1)]] for _ in range(5)]}
    if kind == "custom":
        m = "RK45_JAX" if i % 130 == 9 else pick(rng, "RK45", "Euler", "RK45")
        spec = gen_custom(rng, method=m, limits=pick(rng, "d", "xd", "x", "none"), nmax=3 if m == "RK45_JAX" else 5)
    else:
        m = "RK45_JAX" if (kind in ("rot2d", "sun") and i % 5 == 0 and i % 2 == 0) else pick(rng, "RK45", "Euler")
        spec = gen(rng, kind, method=m)
    ref = make_ref(spec)
    steps = []
    u = None
    for _ in range(int(rng.integers(2, 6))):
        if u is None or maybe(rng, 0.7):
            u = arr(gen_u(rng, ref))
            if maybe(rng, 0.2):
                u = u * 3  # beyond limits: the derivative is that of the limited control
            u = u.tolist()
        steps.append([gen_h(rng, spec if kind == "custom" else kind, 0.08), u])
        if m != "RK45_JAX" and maybe(rng, 0.07):
            steps[-1][0] = pick(rng, 0.0, 0)  # its end is its start, its control the new one
    return {"oracle": "model", "spec": spec, "steps": steps}


def run(case, ctx):
    if case["oracle"] == "clock":
        return clock(case, ctx)
    spec = case["spec"]
    ref = make_ref(spec)
    e = build(spec)
    ctx.check(np.asarray(e.state_dot).shape == (ref.nx, ) and not np.any(np.asarray(e.state_dot)), "the derivative is not zero before the first step")
    for k, (h, u) in enumerate(case["steps"]):
        uc = ref.clip_u(u)
        e.step(h, arr(u) if ref.nu else None)
        x1 = state_of(e)
        check_dot(ctx, ref, x1, uc, e.state_dot, "the reported derivative is not the one at the end of the step", None, spec["method"], step=k,
                  h=h)
        sd = np.asarray(e.state_dot, float)
        # (a state limit outweighs a rate limit that leads out of it)
        ctx.check(np.all((sd <= ref.dmax + 1e-6 * np.abs(np.where(np.isfinite(ref.dmax), ref.dmax, 0))) | (x1 <= ref.xmin)) and
                  np.all((sd >= ref.dmin - 1e-6 * np.abs(np.where(np.isfinite(ref.dmin), ref.dmin, 0))) | (x1 >= ref.xmax)), "the reported derivative exceeds a rate limit",
                  dot=sd, lower=ref.dmin, upper=ref.dmax)
        ctx.check(not np.any(sd[x1 <= ref.xmin] < 0) and not np.any(sd[x1 >= ref.xmax] > 0), "the reported derivative leads out of a limit",
                  state=x1, dot=sd)
        if np.any((sd == ref.dmax) | (sd == ref.dmin)):
            ctx.obs("rate-limited derivatives")
        if np.any((x1 <= ref.xmin) | (x1 >= ref.xmax)):
            ctx.obs("derivatives at a state limit")
        ctx.obs("derivatives " + spec["method"])
        if not h:
            ctx.obs("derivatives after a step of no duration")
    ctx.nontrivial()


def clock(case, ctx):
    a, w, p, lim, m = case["a"], case["w"], case["p"], case["lim"], case["method"]
    kw = {} if lim is None else {"state_dot_min": -lim, "state_dot_max": lim}
    if case["samples"] and m == "RK45":
        kw["trajectory_samples"] = case["samples"]
    e = ArrayEntity(Clocked(a, w, p, integration_method=m, **kw), [0.5], 1, name="clock")
    for k, (h, u) in enumerate(case["steps"]):
        x = state_of(e)
        e.step(h, arr(u))
        want = u[0] + a * np.cos(w * h + p)
        if lim is not None:
            want = float(np.clip(want, -lim, lim))
        ctx.close(e.state_dot, [want], 1e-9 * (1 + a), "the reported derivative is not at the end time of the step", step=k, h=h, method=m)
        if m == "Euler":
            d = u[0] + a * np.cos(p)
            d = d if lim is None else float(np.clip(d, -lim, lim))
            ctx.close(state_of(e), x + h * d, 1e-9 * (1 + np.abs(x)), "Euler step does not use the derivative at its start", step=k)
        elif lim is None:
            ctx.close(state_of(e), x + u[0] * h + a / w * (np.sin(w * h + p) - np.sin(p)), 2e-3 * a * h * (1 + (w * h)**4) + 1e-6 * (1 + np.abs(x)),
                      "time within the step is not counted from its start", step=k, h=h)
        ctx.obs("time-dependent derivatives")
    ctx.nontrivial()
