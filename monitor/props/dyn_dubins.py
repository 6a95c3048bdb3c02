"""C04: Dubins kinematics with saturation."""
import numpy as np

from ..core import Violation
from ..kinds import gen, make_ref, arr, maybe, pick, build, state_of, logu
from ..session import check_dot, gen_steps, run_session

N = {"quick": 2250, "thorough": 12000}


def make(rng, i, tier):
    kind = ("dub2", "dub3")[i % 2]
    method = "Euler" if rng.random() < 0.12 else "RK45"
    spec = gen(rng, kind, method=method, default_p=0.3)
    ref = make_ref(spec)
    steps = gen_steps(rng, ref, kind, int(rng.integers(2, 7)), long_p=0.1)
    case = {"spec": spec, "steps": steps}
    if maybe(rng, 0.4):
        case["extreme"] = extreme(rng, kind)
    return case


def extreme(rng, kind):
    """Very slow or fast, steep and banked flight, for a moment so short that the derivative and the motion are both exact."""
    lo = logu(rng, 1e-3, 20) if maybe(rng, 0.7) else logu(rng, 1e3, 1e5)
    v = lo * rng.uniform(1.05, 3)
    kw = {"v_min": lo, "v_max": lo * 4}
    if kind == "dub2":
        return {"spec": {"kind": kind, "kw": kw, "method": pick(rng, "RK45", "Euler"), "x0": [0.0, 0.0, rng.uniform(-3, 3), v]}, "u": [rng.uniform(-0.17, 0.17), 0.0]}
    kw.update(gamma_min=-1.5, gamma_max=1.5, roll_min=-1.5, roll_max=1.5)
    x0 = [0.0, 0.0, 0.0, rng.uniform(-3, 3), rng.uniform(-1.49, 1.49), rng.uniform(-1.49, 1.49), v]
    return {"spec": {"kind": kind, "kw": kw, "method": pick(rng, "RK45", "Euler"), "x0": x0}, "u": [rng.uniform(-0.17, 0.17), rng.uniform(-0.08, 0.08), 0.0]}


def run(case, ctx):
    e, ref = run_session(case, ctx, None, label="aircraft motion")
    if "extreme" in case:
        spec, u = case["extreme"]["spec"], arr(case["extreme"]["u"])
        ref = make_ref(spec)
        e = build(spec)
        x0 = state_of(e)
        mag = np.abs(ref.f(x0, u))
        h = min(1e-3, 1e-4 / max(1e-3, float(np.max(mag[2:4] if len(x0) == 7 else mag[2:3]))))
        e.step(h, u)
        x1 = state_of(e)
        check_dot(ctx, ref, x1, u, e.state_dot, "the reported derivative is not the aircraft's equations at extreme speed or attitude", None, spec["method"], h=h)
        want = x0 + h * (ref.f(x0, u) + ref.f(x1, u)) / 2
        ctx.close(x1, want, 1e-6 * h * (mag + mag[-1] + x0[-1] + 1) + 4e-16 * np.abs(x0) + 1e-12 * h, "motion at extreme speed or attitude deviates from the aircraft's equations", h=h) \
            if spec["method"] == "RK45" else ctx.close(x1, x0 + h * ref.f(x0, u), 1e-6 * h * (mag + x0[-1] + 1) + 4e-16 * np.abs(x0), "an Euler step at extreme speed or attitude is not one", h=h)
        ctx.obs("moments at extreme speed or attitude")
