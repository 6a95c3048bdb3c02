"""C24: the Sun model."""
import math

import numpy as np
import pint

from safe_autonomy_dynamics.cwh.sun_model import SunDynamics, SunEntity

from ..kinds import logu, maybe, pick
from ..session import step_quiet

N = {"quick": 3600, "thorough": 12000}
UNITS = {"radian": 1.0, "degree": math.pi / 180, "milliradian": 1e-3, "turn": 2 * math.pi, "arcminute": math.pi / 10800}


def make(rng, i, tier):
    method = "RK45_JAX" if i % 25 == 7 else pick(rng, "RK45", "RK45", "Euler")
    case = {
        "method": method, "jax": method == "RK45_JAX" or maybe(rng, 0.15), "default_n": maybe(rng, 0.15),
        "n": pick(rng, logu(rng, 1e-6, 1.0), logu(rng, 1e-3, 0.1), -logu(rng, 1e-5, 0.5), 0.0),
        "theta": None if maybe(rng, 0.15) else pick(rng, float(rng.uniform(-7, 7)), 0.0, float(rng.uniform(-300, 300)), int(rng.integers(-5, 6))),
        "unit": pick(rng, None, None, *UNITS), "empty": maybe(rng, 0.3), "steps": []}
    for _ in range(int(rng.integers(1, 12 if method != "RK45_JAX" else 4))):
        case["steps"].append(pick(rng, logu(rng, 1e-4, 1e3), logu(rng, 1e-2, 60), 1, 0.5, 100.0))
    if maybe(rng, 0.2) and method != "RK45_JAX":
        case["steps"] = [case["steps"][0]] * int(rng.integers(20, 120))
    return case


def run(case, ctx):
    n = 0.001027 if case["default_n"] else case["n"]
    kw = {} if case["default_n"] else {"n": n}
    th = 0.0
    if case["theta"] is not None:
        th = float(case["theta"])
        kw["theta"] = case["theta"]
        if case["unit"]:
            kw["theta"] = pint.get_application_registry().Quantity(case["theta"], case["unit"])
            th *= UNITS[case["unit"]]
    e = SunEntity(name="sun", integration_method=case["method"], use_jax=case["jax"], **kw)
    jax = case["jax"]
    ctx.close(float(e.theta), th, 2e-7 * abs(th) + 1e-12, "the initial angle is not the given one")
    ctx.check(not np.any(e.state_dot), "the derivative before the first step is not zero")
    total, tol, start = 0.0, 2e-7 * abs(th) + 1e-12, float(e.state[0])
    for k, h in enumerate(case["steps"]):
        before = float(e.state[0])
        w = step_quiet(e, h, np.array([]) if case["empty"] else None)
        ctx.check(not any("limit" in str(m.message) for m in w), "a control-limit warning for an entity without controls")
        total += h
        x1 = np.asarray(e.state, float)
        ctx.check(x1.shape == (1, ), "the state changed shape", shape=x1.shape)
        jm = case["method"] == "RK45_JAX"
        step_tol = (5e-5 if case["method"] == "RK45_JAX" else (2e-6 if jax else 1e-9)) * abs(n) * h + (1.5e-6 if jm else 3e-7 if jax or k == 0 else 1e-12) * (
            abs(before) + abs(x1[0])) + 1e-12
        ctx.close(x1[0] - before, n * h, step_tol, "a step does not turn the Sun by the mean motion times its duration", h=h, n=n, step=k)
        tol += step_tol
        ctx.close(x1[0] - start, n * total, tol, "the Sun's total turn is not the mean motion times the elapsed time", n=n, elapsed=total, step=k)
        ctx.close(float(e.theta), x1[0], 0, "the angle read is not the state's")
        ctx.close(np.asarray(e.state_dot, float), [n], (1e-6 if jax else 1e-12) * abs(n), "the reported derivative is not the mean motion", n=n, step=k)
        ctx.obs("sun steps " + case["method"])
    if abs(n * total) > 2 * math.pi:
        ctx.obs("histories of more than a full turn")
    d = SunDynamics(n=n, integration_method="Euler")
    y, sd = d.step(case["steps"][0], np.array([th]), np.array([]))
    ctx.close(y, [th + n * case["steps"][0]], 1e-12 * (abs(th) + abs(n) * case["steps"][0]), "the Sun's dynamics do not turn it at the mean motion")
    ctx.close(sd, [n], 0, "the reported derivative is not the mean motion", n=n)
    ctx.nontrivial()
