"""C05: point-mass integrators."""
import numpy as np

from ..kinds import arr, build, gen, gen_h, gen_u, make_ref, maybe, pick, state_of
from ..session import gen_steps, run_session

N = {"quick": 4500, "thorough": 12000}


def make(rng, i, tier):
    kind = ("int1", "int2", "int3")[i % 3]
    method = "Euler" if rng.random() < 0.15 else "RK45"
    spec = gen(rng, kind, method=method, default_p=0.15)
    ref = make_ref(spec)
    if i % 4 == 3:  # one named thruster at a time
        u = gen_u(rng, ref, "rand")
        return {"oracle": "named", "spec": spec, "h": gen_h(rng, kind, 0.0), "u": u}
    return {"oracle": "step", "spec": spec, "steps": gen_steps(rng, ref, kind, int(rng.integers(2, 7)))}


def run(case, ctx):
    if case["oracle"] == "step":
        run_session(case, ctx, None, label="point-mass motion")
        return
    spec, h = case["spec"], case["h"]
    ref = make_ref(spec)
    base = build(spec)
    x0 = state_of(base)
    base.step(h)
    free = state_of(base)
    for k, name in enumerate(ref.controls):
        e = build(spec)
        e.step(h, {name: case["u"][k]})
        got = state_of(e) - free
        u = np.zeros(ref.nu)
        u[k] = case["u"][k]
        want = np.zeros(ref.nx)
        if spec["method"] == "Euler":
            want[ref.dim + k] = h * u[k] / ref.m
        else:
            z = np.zeros(ref.nx)
            want = ref.exact(z, u, h)
        xe = ref.exact(x0, u, h)
        z = np.zeros(ref.nu)
        tol = 1.5 * (ref.tolerance(x0, u, h, xe) + ref.tolerance(x0, z, h, ref.exact(x0, z, h))) + 4e-7 * np.abs(x0)
        ctx.close(got, want, tol, "a named thruster does not push its own axis alone", thruster=name, h=h)
        ctx.obs("named thrusters")
    ctx.nontrivial()
