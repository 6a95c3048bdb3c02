"""C32: floating-point sanitizer and finiteness monitor."""
import math
import os
import sys

import numpy as np

from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
from safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 import clf16
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
from safe_autonomy_dynamics.external.aerobench.util import Euler

from .. import f16ref as F
from ..core import Violation
from ..kinds import KINDS, METHODS, arr, build, gen, gen_custom, gen_h, gen_libdyn, gen_state, gen_u, make_ref, maybe, pick

N = {"quick": 11250, "thorough": 30000}
WATCHDOG = 300
SKIP = ("dynamics", "control_map", "registered_entities", "partner")


class Traps:
    """NumPy floating-point exceptions, attributed to the frame that executed the operation."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.hits = []

    def __call__(self, err, flag):
        f = sys._getframe(1)
        where = []
        lib = None
        while f is not None and len(where) < 12:
            fn = f.f_code.co_filename
            if lib is None and f"{os.sep}monitor{os.sep}" not in fn:
                lib = fn
            where.append(f"{os.path.basename(fn)}:{f.f_code.co_name}")
            f = f.f_back
        self.hits.append((err, lib or "", where))

    def __enter__(self):
        self.old = np.seterr(divide="call", invalid="call", over="call")
        self.oldcall = np.seterrcall(self)
        return self

    def __exit__(self, *a):
        np.seterrcall(self.oldcall)
        np.seterr(**self.old)

    def verdict(self, what, **d):
        for err, lib, where in self.hits:
            if "safe_autonomy_dynamics" in lib:
                raise Violation(f"{err} in {what}", at=where[:4], **d)
            # inside SciPy/NumPy: the solver met a non-finite or overflowing value; the finiteness monitor decides
            self.ctx.obs("solver-internal exceptions")
        self.hits.clear()


def make(rng, i, tier):
    fam = ("kind", "kind", "kind", "kind", "custom", "libdyn", "f16", "f16", "kind", "sun")[i % 10]
    if fam == "f16":
        ops = pick(rng, "point", "point", "run", "trim")
        x = F.gen_f16_state(rng) + rng.uniform(-1, 1, 3).tolist()
        if maybe(rng, .5):
            x[1] = float(pick(rng, -10, 45, 0, 45.0, -5)) / F.DEG
        if maybe(rng, .4):
            x[2] = float(pick(rng, -30, 30, 0)) / F.DEG
        if maybe(rng, .3):
            x[6:9] = [0.0, 0.0, 0.0]
        if maybe(rng, .2):
            x[3:6] = [float(pick(rng, 0, math.pi, -math.pi)), 0.0, 0.0]
        if maybe(rng, .2):
            x[11] = float(pick(rng, 0, 35000, 50000, 10000))
        u = F.gen_f16_u(rng)
        for k, lim in enumerate(([0, 1, .77], [-25, 25, 0], [-21.5, 21.5, 0], [-30, 30, 0])):
            if maybe(rng, .4):
                u[k] = float(rng.choice(lim))
        return {"fam": "f16", "do": ops, "x": x, "u": u, "model": pick(rng, "stevens", "morelli"), "ref": rng.uniform(-1, 1, 4).tolist(), "v2": maybe(rng, .3),
                "orient": int(rng.integers(1, 5)), "h": pick(rng, 1 / 30, 0.01)}
    if fam == "kind":
        kind = KINDS[int(rng.integers(len(KINDS)))] if maybe(rng, .7) else ("dub2", "dub3", "rot2d", "sixdof")[int(rng.integers(4))]
        m = METHODS[kind][int(rng.integers(2))]
        if kind == "rot2d" and maybe(rng, .06):
            m = "RK45_JAX"
        spec = gen(rng, kind, method=m, wide=True)
        ref = make_ref(spec)
        if kind == "dub2" and maybe(rng, .3):
            spec["kw"].update(v_min=0.0)
            spec["kw"].setdefault("v_max", 400.0)
            spec["x0"][3] = 0.0
    elif fam == "custom":
        spec = gen_custom(rng, jax=False, method=pick(rng, "RK45", "Euler"))
        ref = make_ref(spec)
    elif fam == "libdyn":
        spec = gen_libdyn(rng, method=pick(rng, "RK45", "Euler"))
        ref = make_ref(spec)
    else:
        spec = gen(rng, "sun", method=pick(rng, "RK45", "Euler"))
        ref = make_ref(spec)
    kind = spec["kind"]
    ops = []
    for _ in range(int(rng.integers(2, 9))):
        r = rng.random()
        if r < .3 and kind not in ("custom", "libdyn"):
            x = gen_state(rng, spec)
            mode = pick(rng, "zero", "limits", "plain", "small")
            for k in range(ref.nx):
                att = kind == "sixdof" and 3 <= k < 7
                if att or not maybe(rng, .6):
                    continue
                lo, hi = ref.xmin[k], ref.xmax[k]
                if mode == "limits" and math.isfinite(lo):
                    x[k] = float(pick(rng, lo, hi))
                elif mode == "zero" and lo <= 0 <= hi:
                    x[k] = 0.0
                elif mode == "small" and not math.isfinite(lo):
                    x[k] = float(rng.choice([-1, 1]) * 10**rng.uniform(-300, -5))
                if k in ref.wrap and maybe(rng, .3) and not math.isfinite(lo):
                    x[k] = float(pick(rng, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 0.0))
            if kind == "sixdof" and maybe(rng, .5):
                q = [0.0] * 4
                q[int(rng.integers(4))] = float(rng.choice([-1, 1]))
                x[3:7] = q
            if kind == "dub2" and ref.xmin[3] >= 0 and spec["kw"].get("v_min") == 0.0 and maybe(rng, .5):
                x[3] = 0.0
            ops.append({"set": x})
        else:
            h = gen_h(rng, spec if kind in ("custom", "libdyn") else kind, .06)
            if maybe(rng, .12):
                h = float(rng.choice([1e-9, 1e-12, 1e-7]))
            if kind in ("cwh", "sun") and maybe(rng, .08):
                h = float(rng.choice([1000.0, 5000.0]))
            u = arr(gen_u(rng, ref, pick(rng, "corner", "zero", "rand", "axis")))
            big = 10.0**rng.uniform(1, 12) if maybe(rng, .15) and np.all(np.isfinite(ref.umax)) and np.all(np.isfinite(ref.umin)) else 1.0
            ops.append({"h": h, "u": (u * big).tolist(), "form": pick(rng, "array", "array", "list", "none")})
    if kind not in ("custom", "libdyn", "sun") and maybe(rng, .15) and spec["method"] == "RK45":
        spec["samples"] = int(rng.integers(2, 8))
    return {"fam": "entity", "spec": spec, "ops": ops}


def finite(ctx, v, what, **d):
    if v is None or isinstance(v, (str, bool)):
        return
    if hasattr(v, "as_quat"):
        v = v.as_quat()
    v = getattr(v, "magnitude", v)
    try:
        v = np.asarray(v, dtype=float)
    except (TypeError, ValueError):
        return
    ctx.obs("values checked", int(v.size))
    if not np.all(np.isfinite(v)):
        raise Violation("non-finite " + what, value=v, **d)


def readings(e):
    names = sorted({n for c in type(e).__mro__ for n, a in vars(c).items() if isinstance(a, property)})
    return [n for n in names if not n.startswith("_") and n not in SKIP]


def entity(case, ctx):
    spec = case["spec"]
    t = Traps(ctx)
    with t:
        e = build(spec)
        t.verdict("construction", spec=spec)
        names = readings(e)
        for op in [None] + case["ops"]:
            if op is None:
                pass
            elif "set" in op:
                e.state = arr(op["set"])
            else:
                u = op["u"]
                a = {"array": arr(u), "list": list(u), "none": None}[op["form"]]
                if spec["kind"] == "sun" or not u:
                    a = None
                e.step(op["h"], a)
                t.verdict("a step", spec=spec, op=op)
                finite(ctx, e.state_dot, "state derivative", spec=spec, op=op)
                ctx.obs("steps " + spec.get("base", spec["kind"]))
            finite(ctx, e.state, "state", spec=spec, op=op)
            for n in names:
                try:
                    v = getattr(e, n)
                except (AttributeError, NotImplementedError):
                    continue
                if n == "last_control" and v is None:
                    continue
                finite(ctx, v, "reading", reading=n, spec=spec, op=op)
            t.verdict("a reading", spec=spec, op=op)
    ctx.obs("entity histories")


def f16(case, ctx):
    x, u = arr(case["x"]), arr(case["u"])
    t = Traps(ctx)
    with t:
        if case["do"] == "point":
            out = subf16_model(x[:13].copy(), u, case["model"])
            t.verdict("the F-16 derivative", case=case)
            for v in out:
                finite(ctx, v, "F-16 derivative or load factor", x=x, u=u)
            out = controlled_f16(x, arr(case["ref"]), LowLevelController(), f16_model=case["model"], v2_integrators=case["v2"])
            t.verdict("the F-16 closed loop", case=case)
            for v in out:
                finite(ctx, v, "F-16 closed-loop output", x=x)
        elif case["do"] == "trim":
            const = (0.1, math.sin(.1), 0, 0, .05, 0, 1, 0, .02, 0, 0, case["orient"])
            s = [float(u[0]), float(u[1]), float(x[1])] if case["orient"] != 3 else [*u.tolist(), float(x[1]), float(x[3]), float(x[4])]
            r = clf16(s, x[:13].copy(), u.copy(), const, case["model"])
            t.verdict("the trim cost", case=case)
            finite(ctx, r, "trim cost", case=case)
        else:
            llc = LowLevelController()
            x = np.concatenate([[502, .0389, 0, 0, .0389, 0, 0, 0, 0, 0, 0, 1000, 9.0567], np.zeros(3)])
            x[[0, 1, 2, 3, 6, 7, 8]] += arr(case["ref"] + case["ref"][:3]) * [20, .03, .02, .1, .1, .05, .05]
            sol = Euler(lambda _t, y: controlled_f16(y, np.zeros(4), llc, f16_model=case["model"])[0], 0.0, x, 1.5, step=case["h"])
            n = 0
            while sol.status == "running":
                sol.step()
                n += 1
                finite(ctx, sol.y, "F-16 simulation state", step=n)
                t.verdict("an F-16 simulation", case=case)
            ctx.obs("F-16 simulation steps", n)
    ctx.obs("F-16 evaluations")


def run(case, ctx):
    (f16 if case["fam"] == "f16" else entity)(case, ctx)
    ctx.nontrivial()
