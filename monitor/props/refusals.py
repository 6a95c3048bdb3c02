"""C35: ill-formed configuration."""
import numpy as np

from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
from safe_autonomy_dynamics.cwh import SixDOFDynamics, SixDOFSpacecraft
from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import CtrlLimits, LowLevelController
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
from safe_autonomy_dynamics.external.aerobench.util import Euler, SafetyLimits
from safe_autonomy_dynamics.integrators import Integrator1d, IntegratorDynamics
from safe_autonomy_dynamics.utils import number_list_to_np

from ..kinds import CLS, KINDS, arr, build, gen, gen_u, make_ref, maybe, pick, logu, state_of

N = {"quick": 8000, "thorough": 40000}
WHAT = ("numbers", "numbers", "axes", "frozen", "frozen", "constructor", "action", "aero", "samples", "method")
FREEZE = {
    "CtrlLimits": (CtrlLimits, ("ThrottleMax", "ElevatorMinDeg", "RudderMaxDeg", "NzMax")),
    "LowLevelController": (LowLevelController, ("K_lqr", "xequil", "ctrlLimits")),
    "SafetyLimits": (lambda: SafetyLimits(altitude=(0, 1)), ("altitude", "Nz", "v", "alpha", "psMaxAccelDeg", "betaMaxDeg")),
    "Euler": (lambda: Euler(lambda t, y: y, 0.0, np.ones(2), 1.0, step=0.1), ("t", "y", "status")),
}


def make(rng, i, tier):
    o = WHAT[i % len(WHAT)]
    c = {"oracle": o}
    if o in ("numbers", "axes"):
        c["vals"] = [float(v) for v in rng.uniform(0.01, 1, 3)]
        c["shape"] = [3] if o == "axes" or maybe(rng, 0.5) else [int(v) for v in rng.integers(1, 5, int(rng.integers(1, 3)))]
        c["form"] = pick(rng, "float", "int", "list", "array", "np64", "intlist")
        c["bad"] = pick(rng, "short", "long", "empty", "str", "none", "nested", "array2", "arraylong", "dict", "numstr", "column", "f32", "ints")
        c["craft"] = pick(rng, "spacecraft", "dynamics")
        c["which"] = pick(rng, "ang_acc_limit", "ang_vel_limit")
    elif o == "frozen":
        c["cls"] = pick(rng, *FREEZE)
        c["typo"] = pick(rng, "lower", "append", "other", "chop")
        c["k"] = int(rng.integers(10))
    elif o == "constructor":
        c["kind"] = pick(rng, *KINDS)
        c["kw"] = pick(rng, "mass", "names", "x0", "velocity", "X", "q0", "altitude", "theta_dot", "heading_deg", "control", "lead_entity")
    elif o in ("action", "method"):
        c["spec"] = gen(rng, pick(rng, *KINDS))
        c["u"] = gen_u(rng, make_ref(c["spec"]))
        c["bad"] = pick(rng, "rk45", "RK4", "euler", "", "BDF", "RK45_jax", "None", "RK", "JAX", "RK45 ", "RK45JAX", "Eul", "Eulerian", "EULER", "RK45_JAX_", "45", "_")
        c["len"] = pick(rng, -1, 1, 2, 5)
    elif o == "samples":
        c["spec"] = gen(rng, pick(rng, *KINDS))
        c["u"] = gen_u(rng, make_ref(c["spec"]))
        c["bad"] = pick(rng, 1.5, 2.0, "3", None, [2])
    else:
        c["bad"] = pick(rng, "model", "x12", "x14", "u3", "u5", "list", "ref3", "ref5", "llc", "gain", "MODEL", "stevens ")
        c["name"] = pick(rng, "new", "", "o", "ol", "OLD", "Old", "old ", " old", "older", "default")
        c["other"] = pick(rng, "other", "", "morel", "Morelli", "morelli2", "steven", "stevens,morelli", "f16", "default")
    return c


def refused(ctx, fn, what, **detail):
    ctx.raises(fn, Exception, what, **detail)
    ctx.obs("refusals " + what)


def numbers(case, ctx):
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    v = (case["vals"] * n)[:n]
    f = case["form"]
    if f in ("float", "np64"):
        out = number_list_to_np(np.float64(v[0]) if f == "np64" else v[0], shape)
        want = np.full(shape, v[0])
    elif f == "int":
        out, want = number_list_to_np(3, shape), np.full(shape, 3.0)
    elif f == "intlist":
        out, want = number_list_to_np(np.arange(n).reshape(shape).tolist(), shape), np.arange(n).reshape(shape).astype(float)
    else:
        a = arr(v).reshape(shape)
        given = a.tolist() if f == "list" else a.copy()
        out, want = number_list_to_np(given, shape), a
        ctx.check(np.array_equal(np.array(given), a), "a conversion modified its input")
    ctx.check(isinstance(out, np.ndarray) and out.dtype == np.float64, "a converted value is not a double precision array", got=str(type(out)))
    ctx.close(out, want, 0, "a converted value is not the given one", form=f, shape=shape)
    ctx.obs("conversions " + f)
    for b in (case["bad"], ):
        wrong = malformed(b, n)
        if np.shape(wrong) == shape and b not in ("str", "numstr", "none", "dict", "f32", "ints"):
            continue
        refused(ctx, lambda: number_list_to_np(wrong, shape), "a value of the wrong shape or type", bad=b, shape=shape)


def malformed(b, n):
    return {"short": [0.1] * max(0, n - 1), "long": [0.1] * (n + 1), "empty": [], "str": "abc", "none": None, "nested": [[0.1] * n], "array2": np.full((n, n + 1), 0.1),
            "arraylong": np.full(n + 2, 0.1), "dict": {"x": 0.1}, "numstr": "0.1", "f32": np.full(n, 0.1, np.float32), "ints": np.ones(n, int), "column": np.full((n, 1, 1), 0.1)}[b]


def axes(case, ctx):
    v, w, f = case["vals"], case["which"], case["form"]
    given = {"float": v[0], "np64": np.float64(v[0]), "int": 1, "list": list(v), "intlist": [1, 2, 1], "array": arr(v)}[f]
    want = np.broadcast_to(arr(given), 3)
    big = {"inertia_wheel": 1.0, "acc_limit_wheel": 1e9, "vel_limit_wheel": 1e9}

    def mk(value):
        if case["craft"] == "dynamics":
            return SixDOFDynamics(**{w: value})
        return SixDOFSpacecraft(name="c", **{w: value}, **big)
    d = mk(given)
    if w == "ang_vel_limit":
        dyn = d if case["craft"] == "dynamics" else d.dynamics
        x = np.zeros(13)
        x[6] = 1.0
        x[10:] = 50.0
        y, _ = dyn.step(1e-6, x, np.zeros(6))
        ctx.close(np.asarray(y, float)[10:], want, 1e-6 * want, "a rate limit given per axis is not the one in force", form=f)
        x[10:] = -50.0
        y, _ = dyn.step(1e-6, x, np.zeros(6))
        ctx.close(np.asarray(y, float)[10:], -want, 1e-6 * want, "a rate limit given per axis is not the one in force", form=f)
    elif case["craft"] == "spacecraft":
        ctx.close(np.asarray(d.control_max, float)[3:], want * 0.0573, 1e-9, "an acceleration limit given per axis is not the one in force", form=f)
    ctx.obs("axis limits " + f)
    wrong = malformed(case["bad"], 3)
    refused(ctx, lambda: mk(wrong), "a limit of the wrong shape or type", bad=case["bad"], which=w, craft=case["craft"])


def frozen(case, ctx):
    mk, names = FREEZE[case["cls"]]
    o = mk()
    n = names[case["k"] % len(names)]
    old = getattr(o, n)
    setattr(o, n, 7.5)  # what it has may be set
    ctx.check(getattr(o, n) == 7.5, "an existing attribute cannot be set", attribute=n)
    setattr(o, n, old)
    typo = {"lower": n.lower() if n.lower() != n else n.upper(), "append": n + "s", "other": "limit", "chop": n[:-1] or "zz"}[case["typo"]]
    if hasattr(o, typo):
        return
    refused(ctx, lambda: setattr(o, typo, 1.0), "an attribute that does not exist", cls=case["cls"], attribute=typo)
    ctx.check(not hasattr(o, typo), "a refused attribute was created all the same", attribute=typo)
    ctx.check(not hasattr(mk(), typo), "a refused attribute was created for others")
    p = mk()
    setattr(o, n, 8.5)
    if isinstance(getattr(p, n), (int, float, str, tuple, type(None))):
        ctx.check(getattr(p, n) == old, "setting an attribute changed another object's", attribute=n)
    refused(ctx, lambda: setattr(p, typo, 1.0), "an attribute that does not exist", cls=case["cls"], attribute=typo)


def run(case, ctx):
    o = case["oracle"]
    if o in ("numbers", "axes", "frozen"):
        {"numbers": numbers, "axes": axes, "frozen": frozen}[o](case, ctx)
    elif o == "constructor":
        if case["kw"] == "lead_entity":
            refused(ctx, lambda: CLS[case["kind"]](name="c", no_such_option=None), "an unknown constructor argument", kind=case["kind"])
        else:
            refused(ctx, lambda: CLS[case["kind"]](name="c", **{case["kw"]: 0.5}), "an unknown constructor argument", kind=case["kind"], argument=case["kw"])
        refused(ctx, lambda: CLS[case["kind"]](), "a missing name", kind=case["kind"])
    elif o == "action":
        e = build(case["spec"])
        before = state_of(e)
        u = case["u"]
        k = len(u) + case["len"]
        if k > 1 and k != len(u):
            wrong = [0.1] * k
            refused(ctx, lambda: e.step(0.1, np.array(wrong)), "an action of the wrong length", kind=case["spec"]["kind"], length=k)
            refused(ctx, lambda: e.step(0.1, list(wrong)), "an action of the wrong length", kind=case["spec"]["kind"], length=k)
            ctx.check(np.array_equal(state_of(e), before), "a refused action changed the state")
        e.step(0.01, arr(u))
        ctx.check(not np.array_equal(state_of(e), before) or not np.any(np.asarray(e.state_dot, float)), "a valid step after a refused one does nothing")
    elif o == "method":
        def go():
            e = build(dict(case["spec"], method=case["bad"]))
            e.step(0.1, arr(case["u"]))
        refused(ctx, go, "an unknown integration method", method=case["bad"], kind=case["spec"]["kind"])
    elif o == "samples":
        b = case["bad"]
        refused(ctx, lambda: BaseLinearODESolverDynamics(-np.eye(2), np.ones((2, 1)), trajectory_samples=b).step(0.1, np.ones(2), np.ones(1)), "a number of samples that is not whole", samples=b)
        refused(ctx, lambda: CLS[case["spec"]["kind"]](name="c", trajectory_samples=b).step(0.1, arr(case["u"])), "a number of samples that is not whole", samples=b,
                kind=case["spec"]["kind"])
        refused(ctx, lambda: IntegratorDynamics(m=1, mode="4d"), "an unknown dimensionality")
        refused(ctx, lambda: Integrator1d(name="c", mode="2d"), "a dimensionality that contradicts the class")
    else:
        b = case["bad"]
        x, u, r = np.concatenate([LowLevelController.old_xequil, np.zeros(3)]), LowLevelController.old_uequil.copy(), np.zeros(4)
        if b in ("model", "MODEL", "stevens "):
            m = {"model": case["other"], "MODEL": "STEVENS", "stevens ": "stevens "}[b]
            refused(ctx, lambda: subf16_model(x[:13], u, m), "an unknown aerodynamic model", model=m)
            refused(ctx, lambda: controlled_f16(x, r, LowLevelController(), f16_model=m), "an unknown aerodynamic model", model=m)
        elif b in ("x12", "x14"):
            refused(ctx, lambda: subf16_model(np.ones(int(b[1:])), u, "stevens"), "a state of the wrong length")
        elif b in ("u3", "u5"):
            refused(ctx, lambda: subf16_model(x[:13], np.ones(int(b[1:])), "morelli"), "a control of the wrong length")
        elif b in ("ref3", "ref5"):
            refused(ctx, lambda: controlled_f16(x, np.zeros(int(b[3:])), LowLevelController()), "a reference of the wrong length")
        elif b == "list":
            refused(ctx, lambda: controlled_f16(x.tolist(), r, LowLevelController()), "a state that is not an array")
        elif b == "llc":
            refused(ctx, lambda: controlled_f16(x, r, object()), "something else for a controller")
        else:
            refused(ctx, lambda: LowLevelController(case["name"]), "unknown controller gains", name=case["name"])
            refused(ctx, lambda: LowLevelController(gain_str=case["name"]), "unknown controller gains", name=case["name"])
    ctx.obs("configurations " + o)
    ctx.nontrivial()
