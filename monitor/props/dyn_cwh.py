"""C01: Clohessy-Wiltshire translation of all three spacecraft kinds."""
import numpy as np

from ..kinds import SPACECRAFT, arr, build, gen, gen_state, logu, make_ref, pick, state_of
from ..session import gen_steps, run_session

N = {"quick": 640, "thorough": 9000}


def gen_case_method(rng, kind, i):
    if kind == "rot2d" and i % 40 == 1:
        return "RK45_JAX"
    return "Euler" if rng.random() < 0.15 else "RK45"


def make(rng, i, tier):
    kind = SPACECRAFT[i % 3]
    if i % 20 == 3:  # slow or retrograde frames, over steps long enough to tell
        spec = gen(rng, "cwh", method=pick(rng, "RK45", "RK45", "Euler"))
        n = pick(rng, -1, 1) * logu(rng, 1e-6, 1e-2) if i % 40 == 3 else logu(rng, 1e-6, 2e-4)
        spec["kw"]["n"] = n
        ref = make_ref(spec)
        x = np.array(gen_state(rng, spec))
        x[:3] = rng.uniform(-1, 1, 3) * logu(rng, 1e2, 1e5)
        x[3:] = rng.uniform(-1, 1, 3) * abs(n) * np.max(np.abs(x[:3])) * logu(rng, 0.1, 3)
        spec["x0"] = x.tolist()
        f = abs(n)**2 * np.max(np.abs(x[:3]))  # thrust comparable with the frame's own forces
        return {"oracle": "step", "spec": spec, "steps": [[logu(rng, 0.02, 0.3 if spec["method"] == "Euler" else 2.0) / abs(n),
                                                            (rng.uniform(-1, 1, 3) * np.minimum(1, f * ref.m * pick(rng, 0.0, 1.0))).tolist()] for _ in range(3)]}
    if i % 16 == 7:  # closed orbit
        spec = gen(rng, kind)
        if not make_ref(spec).n:  # no orbit to close
            spec["kw"]["n"] = logu(rng, 1e-4, 1e-2)
        ref = make_ref(spec)
        n = ref.n
        x = np.array(gen_state(rng, spec))
        p, v = ref.pos, ref.vel
        x[v[1]] = -2 * n * x[p[0]]
        x[v[0]] = rng.uniform(-1, 1) * n * 1000
        if len(p) == 3:
            x[v[2]] = rng.uniform(-1, 1) * n * 1000
        if kind != "cwh":  # keep the craft's turn per step moderate, the orbit lasts thousands of seconds
            w = {"rot2d": [5], "sixdof": [10, 11, 12]}[kind]
            x[w] = np.clip(x[w], -n, n)
        spec["x0"] = x.tolist()
        spec["method"] = "RK45"
        return {"oracle": "orbit", "spec": spec, "k": int(rng.integers(24, 48))}
    spec = gen(rng, kind, method=gen_case_method(rng, kind, i))
    ref = make_ref(spec)
    return {"oracle": "step", "spec": spec, "steps": gen_steps(rng, ref, kind, int(rng.integers(2, 7)))}


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    comps = list(ref.pos) + list(ref.vel)
    if case["oracle"] == "step":
        run_session(case, ctx, comps, label="spacecraft translation")
        return
    e = build(spec)
    x0 = state_of(e)
    T = 2 * np.pi / ref.n
    h = T / case["k"]
    xr = x0.copy()
    zero = np.zeros(ref.nu)
    for _ in range(case["k"]):
        e.step(h)
        xr = ref.rk45(xr, zero, h)
    x1 = state_of(e)
    # the reference chain measures the documented solver's accumulated error over the orbit; analytic result is x0 itself
    # float32 storage of the drift-free condition leaves a residual drift -3*dvy*T
    drift = 3 * abs(x0[ref.vel[1]] + 2 * ref.n * x0[ref.pos[0]]) * T * 1.5
    err = np.abs(xr - x0)
    amp = np.max(np.abs(x0[list(ref.pos)])) + np.max(np.abs(x0[list(ref.vel)])) / ref.n
    tol = np.zeros(ref.nx)
    for i in ref.pos:
        tol[i] = 10 * np.max(err[list(ref.pos)]) + 1e-5 * amp + drift + 1e-6
    for i in ref.vel:
        tol[i] = (10 * np.max(err[list(ref.pos)]) + 1e-5 * amp + drift) * ref.n * 2 + 10 * np.max(err[list(ref.vel)]) + 1e-6
    ctx.close(x1[comps], x0[comps], tol[comps], "an unforced drift-free orbit did not close", spec=spec)
    ctx.obs("orbits closed")
    ctx.nontrivial()



