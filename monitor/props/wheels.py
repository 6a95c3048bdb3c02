"""C07: combined craft and reaction-wheel capability."""
import numpy as np

from ..kinds import arr, build, gen, logu, make_ref, maybe, pick, state_of

N = {"quick": 600, "thorough": 9000}


def make(rng, i, tier):
    kind = ("rot2d", "sixdof", "sixdof")[i % 3]
    m = "RK45_JAX" if (kind == "rot2d" and i % 96 == 0) else ("Euler" if maybe(rng, 0.2) else "RK45")
    spec = gen(rng, kind, method=m, default_p=0.05)
    # let each of the four limit pairings occur often
    ref = make_ref(spec)
    J = np.atleast_1d(ref.inertia if kind == "rot2d" else ref.J)
    if spec["kw"] and maybe(rng, 0.8):
        f = logu(rng, 0.2, 5)
        g = logu(rng, 0.2, 5)
        al = float(np.mean(np.atleast_1d(spec["kw"].get("ang_acc_limit", 0.017453))))
        vl = float(np.mean(np.atleast_1d(spec["kw"].get("ang_vel_limit", 0.034907))))
        iw = spec["kw"].get("inertia_wheel", 4.1e-5)
        if iw:
            for k, v in (("acc_limit_wheel", f * al), ("vel_limit_wheel", g * vl)):
                if spec["kw"].get(k, 1) != 0 or maybe(rng, 0.3):
                    spec["kw"][k] = round(v * float(np.mean(J)) / iw, 6)
    nw = 1 if kind == "rot2d" else 3
    x0 = spec["x0"]
    x0[-nw:] = [0.0] * nw
    o = pick(rng, "axis", "axis", "history")
    case = {"oracle": o, "spec": spec, "frac": round(float(rng.uniform(0.3, 0.98)), 6), "push": round(logu(rng, 1.01, 1e4), 6),
            "part": round(float(rng.uniform(0.2, 0.9)), 6), "beyond": round(float(rng.uniform(1.1, 4)), 6)}
    if o == "history":
        case["steps"] = [[round(logu(rng, 0.05, 3), 6), [pick(rng, -1, 0, 1, float(rng.uniform(-1, 1))) * logu(rng, 0.5, 50) for _ in range(nw)]]
                         for _ in range(int(rng.integers(5, 14)))]
        if maybe(rng, 0.4):
            case["x_out"] = (rng.uniform(-3, 3, nw)).round(6).tolist()
    return case


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    rot = spec["kind"] == "rot2d"
    nw = 1 if rot else 3
    acc, vel = np.atleast_1d(ref.acc) * np.ones(nw), np.atleast_1d(ref.velmax) * np.ones(nw)
    J = np.atleast_1d(ref.inertia if rot else ref.J) * np.ones(nw)
    nu = ref.nu
    jax = spec["method"] == "RK45_JAX"
    rt = 1e-4 if jax else 1e-5

    def rates(e):
        w = state_of(e)[-nw:]
        ctx.check(np.all(np.abs(w) <= vel * (1 + 2e-6)), "body rate beyond the craft's and wheel's capability", rates=w, limit=vel)
        ctx.close(np.asarray(e.angular_velocity, float)[-nw:], w, 1e-6 * np.abs(w) + 1e-12, "angular velocity reading differs from the state")
        ctx.obs("rate bounds checked")
        return w

    def act(k, m):
        u = np.zeros(nu)
        u[nu - nw + k] = m
        return u
    dead = (acc == 0) | (vel == 0)  # no capability at all: no moment ever turns the craft
    if np.any(dead):
        e = build(spec)
        for k in range(nw):
            u = act(k, case["push"] * (1 if k % 2 else -1))
            for h in (0.1, 5.0):
                e.step(h, u)
                w = rates(e)
                ctx.check(np.all(w[dead] == 0), "a craft whose combined capability is zero turned", rates=w, capability=acc, limit=vel)
        ctx.obs("craft without capability")
        ctx.nontrivial()
        return
    if case["oracle"] == "axis":
        for k in range(nw):
            for s in (1, -1):
                e = build(spec)
                h = case["part"] * vel[k] / acc[k]
                # within capability: acts in full
                e.step(h, act(k, s * case["frac"] * acc[k] * J[k]))
                w = rates(e)
                ctx.close(w[k], s * case["frac"] * acc[k] * h, rt * vel[k], "a moment within the capability did not act in full", axis=k)
                ctx.close(np.delete(w, k), np.zeros(nw - 1), 1e-7, "a moment turned another axis", axis=k)
                # beyond capability from rest
                e = build(spec)
                e.step(h, act(k, s * case["push"] * acc[k] * J[k]))
                w = rates(e)
                ctx.close(w[k], s * acc[k] * h, rt * vel[k], "the largest moment does not give the smaller of craft and wheel acceleration",
                          axis=k, sign=s, capability=acc)
                ctx.close(np.asarray(e.state_dot, float)[-nw:][k], s * acc[k], rt * acc[k], "reported angular acceleration is not the capability", axis=k)
                # up to the rate limit and held there
                e.step(case["beyond"] * vel[k] / acc[k], act(k, s * case["push"] * acc[k] * J[k]))
                w = rates(e)
                tol = {"Euler": rt, "RK45_JAX": 2e-3}.get(spec["method"], 1e-4)
                ctx.close(w[k], s * vel[k], tol * vel[k], "the rate limit is not the smaller of craft and wheel rate", axis=k, sign=s, capability=vel)
                e.step(0.3 * vel[k] / acc[k], act(k, s * case["push"] * acc[k] * J[k]))
                w = rates(e)
                ctx.close(w[k], s * vel[k], tol * vel[k], "the rate did not stay at its limit", axis=k)
                w0 = w[k]
                # and back
                e.step(h, act(k, -s * case["push"] * acc[k] * J[k]))
                w = rates(e)
                ctx.close(w[k], w0 - s * acc[k] * h, tol * vel[k], "the rate did not return from its limit at the capability", axis=k, sign=s)
                e.step(case["beyond"] * 2 * vel[k] / acc[k], act(k, -s * case["push"] * acc[k] * J[k]))
                w = rates(e)
                ctx.close(w[k], -s * vel[k], tol * vel[k], "the opposite rate limit is not reached", axis=k)
                ctx.obs("axis sweeps")
        ctx.nontrivial()
        return
    if "x_out" in case:
        spec = dict(spec, x0=spec["x0"][:-nw] + (arr(case["x_out"]) * vel).tolist())
    e = build(spec)
    for n, (hf, m) in enumerate(case["steps"]):
        w0 = state_of(e)[-nw:]
        h = hf * float(np.min(vel / acc))
        u = np.zeros(nu)
        u[nu - nw:] = arr(m) * acc * J
        e.step(h, u)
        w = rates(e)
        # one step cannot change a rate by more than capability plus gyroscopic coupling allows
        g = np.zeros(3)
        if not rot:
            v = np.maximum(vel, np.abs(w0))
            g = np.array([abs(J[1] - J[2]) * v[1] * v[2] / J[0], abs(J[0] - J[2]) * v[0] * v[2] / J[1], abs(J[0] - J[1]) * v[0] * v[1] / J[2]])
        wc = np.clip(w0, -vel, vel)
        ctx.check(np.all(np.abs(w - wc) <= (acc + g[:nw]) * h * (1 + 1e-3) + 1e-4 * vel + np.abs(w0 - wc)),
                  "a rate changed faster than the capability", before=w0, after=w, h=h, capability=acc)
        if not rot:
            sd = np.asarray(e.state_dot, float)[-nw:]
            ctx.check(np.all(np.abs(sd) <= (acc + g) * (1 + 1e-4)), "reported angular acceleration beyond the capability", dot=sd)
        if np.any(np.abs(w) >= vel * (1 - 1e-4)):
            ctx.obs("histories at a rate limit")
    ctx.nontrivial()
