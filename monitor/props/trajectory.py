"""C15: trajectory sampling."""
import numpy as np

from ..kinds import KINDS, arr, build, gen, gen_custom, gen_h, gen_u, logu, make_ref, maybe, pick, state_of

N = {"quick": 1260, "thorough": 9000}


def make(rng, i, tier):
    kinds = KINDS + ("custom", )
    kind = kinds[i % len(kinds)]
    spec = gen_custom(rng, method="RK45", limits=pick(rng, "none", "none", "xd"), jax=False) if kind == "custom" else gen(rng, kind)
    ref = make_ref(spec)
    spec["samples"] = int(pick(rng, 1, 2, 3, 5, 10, int(rng.integers(1, 60))))
    if i % 29 == 4:
        spec["samples"] = pick(rng, 99, 100, 101, 128, 250, 500, 1000, 1001, 2048, 5000)
    steps = [[gen_h(rng, spec if kind == "custom" else kind, 0.15), gen_u(rng, ref)] for _ in range(int(rng.integers(1, 4)))]
    if kind == "sixdof":
        steps = [[min(h, 6 / max(float(np.max(ref.velmax)), 1e-2)), u] for h, u in steps]
    return {"spec": spec, "steps": steps, "refuse": pick(rng, None, None, None, "Euler", "RK45_JAX") if kind in ("custom", "rot2d", "dub2", "cwh") else None}


def run(case, ctx):
    spec = case["spec"]
    N_ = spec["samples"]
    ref = make_ref(spec)
    ang = list(ref.wrap)
    if case["refuse"]:
        if case["refuse"] == "RK45_JAX" and spec["kind"] not in ("rot2d", "custom"):
            case = dict(case, refuse="Euler")
        s = dict(spec, method=case["refuse"])
        if case["refuse"] == "RK45_JAX":
            s["jax"] = True

        def go():
            e = build(s)
            x = e.state
            try:
                e.step(0.1, arr(case["steps"][0][1]))
            except Exception:
                ctx.check(np.array_equal(x, e.state), "a refused step changed the entity")
                raise
        ctx.raises(go, (Exception, ), "trajectory sampling with a method that cannot sample", method=case["refuse"])
        ctx.obs("refusals")
    e = build(spec)
    plain = build({k: v for k, v in spec.items() if k != "samples"})
    held = []
    for k, (h, u) in enumerate(case["steps"]):
        x = state_of(e)
        uc = ref.clip_u(u)
        e.step(h, arr(u))
        traj, tt = np.asarray(e.dynamics.trajectory, float), np.asarray(e.dynamics.trajectory_t, float)
        ctx.check(traj.shape == (N_, ref.nx) and tt.shape == (N_, ), "not exactly the requested number of samples", trajectory=traj.shape, times=tt.shape,
                  requested=N_)
        ctx.close(tt, h * np.arange(1, N_ + 1) / N_, 1e-12 * h, "sample times are not evenly spaced up to the end of the step", h=h)
        for old, copy_ in held:
            ctx.check(np.array_equal(old, copy_), "a later step altered previously read samples")
        fin = np.array([ref.finish(r) for r in traj])
        x1 = state_of(e)
        sc = ref.scale(x, x1, h, uc)
        xe = ref.exact(x, uc, h)
        end_tol = ref.tolerance(x, uc, h, xe)
        ctx.close(fin[-1], x1, 1e-9 * sc + 1e-12, "the last sample is not the end of the step", angles=ang, h=h)
        # the dense interpolant is one order less accurate than the steps: measure it on the reference
        idx = range(N_) if N_ <= 6 else sorted({0, 1, N_ // 3, N_ // 2, N_ - 2, N_ - 1})
        from scipy.integrate import solve_ivp
        dense = solve_ivp(lambda t, y: ref.lim(y, uc), (0, h), x, t_eval=tt).y.T
        sat = ref.saturating(x, uc, h)
        for j in idx:
            t = float(tt[j])
            xt = ref.exact(x, uc, t)
            tol = 10 * np.abs(np.clip(dense[j], ref.xmin, ref.xmax) - xt) + end_tol + sc * (2e-6 if ref.f32 else 2e-7)
            for g in ref.groups:
                tol[list(g)] = np.max(tol[list(g)])
            if sat:
                tol = tol + 5e-3 * sc + 0.02 * h * ref.mag(np.clip(x, ref.xmin, ref.xmax), uc)
            ctx.close(fin[j], ref.finish(xt), tol, "a sample is not the state at its time", angles=ang, sample=j, t=t, h=h, start=x, control=uc)
            ctx.obs("samples compared")
        plain.state = x
        plain.step(h, arr(u))
        ctx.close(x1, state_of(plain), 2 * end_tol + 1e-9 * sc, "requesting samples changed the result of the step", angles=ang, h=h)
        ctx.close(x1, xe, end_tol, "a sampled step deviates from the model", angles=ang, h=h, start=x, control=uc)
        held.append((e.dynamics.trajectory, np.array(e.dynamics.trajectory)))
        ctx.obs("sampled steps")
    ctx.nontrivial()
