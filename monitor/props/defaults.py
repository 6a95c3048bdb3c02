"""C38: documented defaults."""
import numpy as np

from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
from safe_autonomy_dynamics.cwh import CWHDynamics, CWHRotation2dDynamics, SixDOFDynamics, point_model, rotational_model, sixdof_model
from safe_autonomy_dynamics.cwh.sun_model import SunDynamics
from safe_autonomy_dynamics.dubins import Dubins2dDynamics, Dubins3dDynamics
from safe_autonomy_dynamics.integrators import IntegratorDynamics

from ..kinds import CLS, INIT_NAMES, KINDS, arr, logu, maybe, pick

N = {"quick": 4000, "thorough": 30000}
CRAFT = {"m": 12, "n": 0.001027}
WHEEL = {"inertia_wheel": 4.1e-5, "acc_limit_wheel": 181.3, "vel_limit_wheel": 576}
SPIN = {"ang_acc_limit": 0.017453, "ang_vel_limit": 0.034907}
ACC = {"acceleration_control_min": -96.5, "acceleration_control_max": 96.5}
SPEED = {"v_min": 200, "v_max": 400}
OPT = {"trajectory_samples": 0, "integration_method": "RK45"}
PAR = {
    "cwh": {**CRAFT, **OPT},
    "rot2d": {**CRAFT, **SPIN, **WHEEL, "inertia": 0.0573, **OPT, "use_jax": False},
    "sixdof": {**CRAFT, **SPIN, **WHEEL, "inertia_matrix": [[0.0573, 0, 0], [0, 0.0573, 0], [0, 0, 0.0573]], "thrust_control_limit": 1.0, "body_frame_thrust": True, **OPT},
    "dub2": {**SPEED, **ACC, "heading_rate_control_min": -0.174533, "heading_rate_control_max": 0.174533, **OPT},
    "dub3": {**SPEED, **ACC, "gamma_min": -0.349066, "gamma_max": 0.349066, "roll_min": -1.047198, "roll_max": 1.047198, "gamma_rate_control_min": -0.174533,
             "gamma_rate_control_max": 0.174533, "roll_rate_control_min": -0.087266, "roll_rate_control_max": 0.087266, **OPT},
    **{f"int{k}": {"m": 1, "damping": 0, **OPT} for k in (1, 2, 3)},
    "sun": {"n": 0.001027, "integration_method": "RK45", "use_jax": False},
}
NEUTRAL = {"cwh": 3, "rot2d": 3, "sixdof": 6, "dub2": 2, "dub3": 3, "int1": 1, "int2": 2, "int3": 3, "sun": 0}
SPAN = {"cwh": [1] * 3, "rot2d": [1, 1, 1e-3], "sixdof": [1] * 3 + [1e-3] * 3, "dub2": [0.18, 97], "dub3": [0.18, 0.09, 97], "int1": [1], "int2": [1] * 2, "int3": [1] * 3, "sun": []}
START = {"v": 200, "q4": 1.0}
DYN = {
    "cwh": (CWHDynamics, CRAFT), "rot2d": (CWHRotation2dDynamics, {**CRAFT, "inertia": 0.0573, **SPIN, "use_jax": False}),
    "sixdof": (SixDOFDynamics, {**CRAFT, **SPIN, "inertia_matrix": PAR["sixdof"]["inertia_matrix"], "body_frame_thrust": True}),
    "dub2": (Dubins2dDynamics, {}), "dub3": (Dubins3dDynamics, {"g": 32.17}),
    "int1": (IntegratorDynamics, {"m": 1, "damping": 0, "mode": "1d"}), "int2": (IntegratorDynamics, {"m": 1, "damping": 0, "mode": "2d"}),
    "int3": (IntegratorDynamics, {"m": 1, "damping": 0, "mode": "3d"}), "sun": (SunDynamics, {"n": 0.001027}),
    "lin": (BaseLinearODESolverDynamics, {}),
}
BASE = {"state_min": -np.inf, "state_max": np.inf, "angle_wrap_centers": None, "use_jax": False, "trajectory_samples": 0, "state_dot_min": -np.inf, "state_dot_max": np.inf,
        "integration_method": "RK45"}
CONSTANTS = ((point_model, {"M_DEFAULT": 12, "N_DEFAULT": 0.001027}),
             (rotational_model, {"M_DEFAULT": 12, "N_DEFAULT": 0.001027, "INERTIA_DEFAULT": 0.0573, "INERTIA_WHEEL_DEFAULT": 4.1e-5, "ANG_ACC_LIMIT_DEFAULT": 0.017453,
                                 "ANG_VEL_LIMIT_DEFAULT": 0.034907, "ACC_LIMIT_WHEEL_DEFAULT": 181.3, "VEL_LIMIT_WHEEL_DEFAULT": 576}),
             (sixdof_model, {"M_DEFAULT": 12, "N_DEFAULT": 0.001027, "ANG_ACC_LIMIT_DEFAULT": 0.017453, "ANG_VEL_LIMIT_DEFAULT": 0.034907}))


def vary(rng, k, v, tight):
    if k == "trajectory_samples":
        return int(rng.integers(1, 4))
    if k == "integration_method":
        return pick(rng, "RK45", "Euler")
    if k in ("use_jax", "mode"):
        return v
    if isinstance(v, bool):
        return not v
    f = rng.uniform(0.8, 1.2) if not tight else rng.uniform(0.95, 1.05)
    if k in SPIN and maybe(rng, 0.5):
        f *= 40  # beyond the reaction wheel's capability
    if k == "damping":
        return round(float(f - 0.7), 6)
    return (np.array(v) * f).round(9).tolist() if isinstance(v, list) else round(v * f, 9)


def make(rng, i, tier):
    dyn = i % 4 == 3
    kind = pick(rng, *(KINDS + ("sun", ))) if not dyn else pick(rng, *DYN)
    par = PAR[kind] if not dyn else DYN[kind][1]
    alone = maybe(rng, 0.5)  # many omitted, or few
    c = {"kind": kind, "dyn": dyn, "par": {k: vary(rng, k, v, False) for k, v in par.items() if maybe(rng, 0.15 if alone else 0.6)}}
    if c["par"].get("trajectory_samples") and c["par"].get("integration_method") == "Euler":
        del c["par"]["integration_method"]
    span, n = arr(SPAN.get(kind, [1])), NEUTRAL.get(kind, 1)
    c["steps"] = []
    hold = None
    for _ in range(int(rng.integers(1, 7))):
        if hold is None or maybe(rng, 0.4):
            hold = pick(rng, None, "r", "r")
            if hold == "r" and kind in ("rot2d", "sixdof") and maybe(rng, 0.4):
                hold = (arr(span) * np.where(arr(span) < 0.1, 20, 1) * rng.choice([-1, 1], n)).tolist()
            elif hold == "r":
                hold = (span * rng.choice([-1, 1], n) * rng.uniform(0.1, 2, n)).round(9).tolist() if n else []
        c["steps"].append([round(logu(rng, 0.05, 8 if kind.startswith("dub") else 20), 9), hold])
    if dyn:
        nx = {"lin": 2, "sun": 1}.get(kind) or len(INIT_NAMES[kind])
        c["base"] = [k for k in BASE if maybe(rng, 0.4)]
        c["x0"] = (rng.uniform(-1, 1, nx) * (30 if kind != "lin" else 1)).tolist()
        if kind == "sixdof":
            c["x0"][6] = 1.0
            c["x0"][3:6] = [0.0] * 3
        if kind.startswith("dub"):
            c["x0"][-1] = 250.0
            c["x0"][2:-1] = [v / 100 for v in c["x0"][2:-1]]
    else:
        groups = [["q1", "q2", "q3", "q4"]] if kind == "sixdof" else []
        given = {}
        for k in INIT_NAMES[kind]:
            if k[0] == "q":
                continue
            if maybe(rng, 0.4):
                given[k] = round(float(rng.uniform(210, 390)), 6) if k == "v" else round(float(rng.uniform(-1, 1) * (0.3 if k in ("gamma", "roll") else 0.02 if k in ("wx", "wy", "wz") else 2)), 6)
        if groups and maybe(rng, 0.4):
            q = rng.normal(size=4)
            given.update(zip(groups[0], (q / np.linalg.norm(q)).tolist()))
        c["given"] = given
    return c


def shown(e):
    return [np.array(e.state, float), np.array(e.state_dot, float), np.nan_to_num(np.array(e.control_min, float)), np.nan_to_num(np.array(e.control_max, float))]


def run(case, ctx):
    kind = case["kind"]
    for mod, values in CONSTANTS:
        for k, v in values.items():
            ctx.check(getattr(mod, k, v) == v, "a documented default constant has another value", module=mod.__name__, name=k)
    if case["dyn"]:
        return dynamics(case, ctx)
    par, given = dict(case["par"]), dict(case["given"])
    if "inertia_matrix" in par:
        par["inertia_matrix"] = np.matrix(par["inertia_matrix"])
    full = {**PAR[kind], **par}
    if "inertia_matrix" in full:
        full["inertia_matrix"] = np.matrix(full["inertia_matrix"])
    start = {k: given.get(k, START.get(k, 0)) for k in INIT_NAMES[kind]}
    a = CLS[kind](name="a", **par, **given)
    b = CLS[kind](name="b", **full, **start)
    want0 = arr([start[k] for k in INIT_NAMES[kind]])
    for e, w in ((a, "omitted"), (b, "given")):
        x = np.array(e.state, float)
        ctx.close(x, want0, 1e-6 * np.abs(want0) + 1e-12, "an entity does not start at the documented default initial conditions", kind=kind, options=w, given=sorted(given)) \
            if kind != "sun" or abs(want0[0]) < 3 else None
    for k, (h, u) in enumerate(case["steps"]):
        ua = None if u is None else arr(u)
        ub = np.zeros(NEUTRAL[kind]) if u is None else arr(u)
        a.step(h) if ua is None else a.step(h, ua)
        b.step(h, ub)
        sa, sb = shown(a), shown(b)
        for p, q, w in zip(sa, sb, ("state", "derivative", "lower control limit", "upper control limit")):
            ctx.close(p, q, 1e-12 * np.abs(q) + 1e-15, f"omitting options gives another {w} than their documented defaults", kind=kind, step=k, omitted=sorted(set(PAR[kind]) - set(par)), action=u)
        ctx.check((getattr(a.dynamics, "trajectory", None) is None) == (getattr(b.dynamics, "trajectory", None) is None), "omitting the number of samples gives another trajectory")
    for k in set(PAR[kind]) - set(par):
        ctx.obs(f"omitted {kind} {k}")
    ctx.obs("entities compared")
    ctx.nontrivial()


def dynamics(case, ctx):
    kind = case["kind"]
    cls, par = DYN[kind]
    mine = dict(case["par"])
    if "mode" in par and par["mode"] != "1d":
        mine["mode"] = par["mode"]
    full = {**par, **mine}
    for d in (mine, full):
        if "inertia_matrix" in d:
            d["inertia_matrix"] = np.matrix(d["inertia_matrix"])
    if kind == "lin":
        A, B = np.array([[0.0, 1.0], [-1.0, -0.2]]), np.array([[0.0], [1.0]])
        mine, full = dict(A=A, B=B), dict(A=A, B=B)
    skip = ("state_min", "state_max", "state_dot_min", "state_dot_max", "angle_wrap_centers") if kind in ("rot2d", "sixdof", "dub2", "dub3") else \
        ("angle_wrap_centers", ) if kind == "sun" else ()
    base = {k: BASE[k] for k in case["base"] if k not in skip and k not in full and (k != "use_jax" or kind != "sun")}
    a, b = cls(**mine), cls(**full, **base)
    xa, xb = arr(case["x0"]), arr(case["x0"])
    for k, (h, u) in enumerate(case["steps"]):
        u = np.zeros(NEUTRAL.get(kind, 1)) if u is None else arr(u)
        xa, da = (np.asarray(v, float) for v in a.step(h, xa, u))
        xb, db = (np.asarray(v, float) for v in b.step(h, xb, u))
        ctx.close(xa, xb, 1e-12 * np.abs(xb) + 1e-15, "omitting options of a model gives another motion than their documented defaults", kind=kind, step=k, given=sorted(case["par"]))
        ctx.close(da, db, 1e-12 * np.abs(db) + 1e-15, "omitting options of a model gives another derivative than their documented defaults", kind=kind, step=k, given=sorted(case["par"]))
    ctx.obs("models compared")
    ctx.nontrivial()
