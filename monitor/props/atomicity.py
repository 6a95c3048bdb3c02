"""C17: failed steps."""
import numpy as np

from safe_autonomy_dynamics.base_models import BaseODESolverDynamics

from ..core import BoundedWork, Violation
from ..kinds import KINDS, ArrayEntity, arr, build, build_custom, gen, gen_custom, gen_h, gen_u, logu, make_ref, maybe, neutral, pick, state_of

N = {"quick": 1920, "thorough": 9000}
CALLS = 3_000_000


class Injected(Exception):
    pass


class Blow(BaseODESolverDynamics):
    """x' = |x|^p x: reaches infinity in finite time."""

    def __init__(self, p=1.0, **kw):
        self.p = p
        super().__init__(**kw)

    def _compute_state_dot(self, t, state, control):
        with np.errstate(all="ignore"):
            return np.abs(state)**self.p * state + 0 * np.sum(control)


class Lossy(BaseODESolverDynamics):
    """A model whose derivative is undefined beyond a wall."""

    def __init__(self, wall, value, **kw):
        self.wall, self.value = wall, value
        super().__init__(**kw)

    def _compute_state_dot(self, t, state, control):
        d = np.array([1.0 + control[0], 0.3 * state[0]])
        if state[0] > self.wall:
            d[int(self.wall * 7) % 2] = self.value
        return d


def make(rng, i, tier):
    o = ("inject", "action", "action", "blow", "wall", "action", "inject", "nan")[i % 8]
    if o == "inject":
        spec = gen_custom(rng, model=pick(rng, "pend", "gen"), method=pick(rng, "RK45", "RK45", "Euler"), jax=False)
        if spec["method"] == "RK45" and maybe(rng, 0.2):
            spec["samples"] = int(rng.integers(1, 5))
        ref = make_ref(spec)
        n = int(rng.integers(1, 4))
        return {"oracle": o, "spec": spec, "prior": [[gen_h(rng, spec), gen_u(rng, ref)] for _ in range(n)], "h": gen_h(rng, spec), "u": gen_u(rng, ref),
                "next": [gen_h(rng, spec), gen_u(rng, ref)], "error": pick(rng, "Injected", "ValueError", "ZeroDivisionError", "RuntimeError", "KeyError", "TypeError")}
    if o == "blow":
        x0 = pick(rng, -1, 1) * logu(rng, 0.2, 5)
        p = float(pick(rng, 1.0, 2.0, 0.5))
        tstar = 1 / (p * abs(x0)**p)
        return {"oracle": o, "x0": x0, "p": p, "ok": round(0.3 * tstar, 9), "h": round(tstar * logu(rng, 1.3, 100), 9), "samples": pick(rng, 0, 0, 4)}
    if o == "wall":
        return {"oracle": o, "wall": round(float(rng.uniform(0.5, 3)), 6), "value": pick(rng, "nan", "inf", "-inf"), "x0": [round(float(rng.uniform(-1, 0.3)), 6), 0.0],
                "over": logu(rng, 1.2, 30)}
    kinds = KINDS + ("custom", )
    kind = kinds[i % len(kinds)]
    spec = gen_custom(rng, model="lin", method="RK45", jax=False) if kind == "custom" else gen(rng, kind, method="RK45" if o == "nan" else pick(rng, "RK45", "RK45", "Euler"))
    ref = make_ref(spec)
    kk = spec if kind == "custom" else kind
    return {"oracle": o, "spec": spec, "prior": [[gen_h(rng, kk, 0.03), gen_u(rng, ref)] for _ in range(int(rng.integers(0, 3)))],
            "next": [gen_h(rng, kk, 0.03), gen_u(rng, ref)], "h": gen_h(rng, kk, 0.03), "u": gen_u(rng, ref), "which": int(rng.integers(1000)),
            "fails": [pick(rng, "longer", "shorter", "unknown", "late", "type", "text", "none-in-list", "nested", "step-text", "step-none", "dictvalue")
                      for _ in range(3)]}


def snapshot(e):
    return state_of(e), np.array(e.state_dot, dtype=float), np.array(e.control_default, dtype=float)


def same(ctx, e, snap, what, **d):
    now = snapshot(e)
    for a, b, n in zip(now, snap, ("state", "derivative", "neutral control")):
        ctx.check(np.array_equal(a, b), "a failed step changed the " + n, by=what, before=b, after=a, **d)


def twin_after(ctx, e, twin, nxt, ref, what):
    """The next valid step is the twin's."""
    h, u = nxt
    for act in (arr(u), None):
        e.step(h, None if act is None else act.copy())
        twin.step(h, None if act is None else act.copy())
        x, y = state_of(e), state_of(twin)
        ctx.close(x, y, 1e-12 * np.abs(y), "the step after a failed one differs from one that never failed", by=what)
        ctx.close(np.asarray(e.state_dot, float), np.asarray(twin.state_dot, float), 1e-12 * np.abs(np.asarray(twin.state_dot, float)),
                  "the derivative after a failed step differs", by=what)
    ctx.obs("recoveries compared")


def run(case, ctx):
    globals()["run_" + case["oracle"]](case, ctx)
    ctx.nontrivial()


def run_inject(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    err = {"Injected": Injected, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError, "KeyError": KeyError,
           "TypeError": TypeError}[case["error"]]
    st = {"n": 0, "at": None}

    def hook():
        st["n"] += 1
        if st["at"] is not None and st["n"] == st["at"]:
            raise err("injected")

    def fresh():
        st.update(n=0, at=None)
        e = build_custom(spec, hook=hook)
        for h, u in case["prior"]:
            e.step(h, arr(u))
        return e
    e = fresh()
    st["n"] = 0
    e.step(case["h"], arr(case["u"]))
    total = st["n"]
    done = state_of(e)
    ks = range(1, total + 1) if total <= 24 else sorted({1, 2, 3, total, total - 1, total - 2} | {int(v) for v in np.linspace(1, total, 18)})
    twin = fresh()
    for k in ks:
        e = fresh()
        snap = snapshot(e)
        st.update(n=0, at=k)
        ctx.raises(lambda: e.step(case["h"], arr(case["u"])), (Exception, ), "a model failing at an evaluation", evaluation=k, of=total)
        st["at"] = None
        same(ctx, e, snap, "model error", evaluation=k, of=total)
        ctx.obs("faults injected")
        if k in (1, total) or k % 5 == 0:
            t = fresh()
            twin_after(ctx, e, t, case["next"], ref, "model error at %d of %d" % (k, total))
        else:
            e.step(case["h"], arr(case["u"]))
            ctx.close(state_of(e), done, 1e-12 * np.abs(done), "retrying a failed step gives another result", evaluation=k)
    del twin


def run_blow(case, ctx):
    spec_h = case["h"]
    e = ArrayEntity(Blow(case["p"], trajectory_samples=case["samples"]), [case["x0"]], 1, name="blow")
    twin = ArrayEntity(Blow(case["p"], trajectory_samples=case["samples"]), [case["x0"]], 1, name="twin")
    snap = snapshot(e)
    with BoundedWork(CALLS):
        ctx.raises(lambda: e.step(spec_h), (Exception, ), "a solution that blows up within the step", h=spec_h, x0=case["x0"])
    same(ctx, e, snap, "blow-up")
    e.step(case["ok"])
    twin.step(case["ok"])
    ctx.close(state_of(e), state_of(twin), 0, "the step after a blow-up differs")
    p, x0, h = case["p"], abs(case["x0"]), case["ok"]
    ctx.close(np.abs(state_of(e)), [x0 * (1 - p * x0**p * h)**(-1 / p)], 5e-3 * x0, "a valid step of the same model is wrong")
    ctx.obs("blow-ups")


def run_wall(case, ctx):
    v = float(case["value"])
    e = ArrayEntity(Lossy(case["wall"], v), case["x0"], 1, name="wall")
    twin = ArrayEntity(Lossy(case["wall"], v), case["x0"], 1, name="wall")
    snap = snapshot(e)
    room = case["wall"] - case["x0"][0]
    with BoundedWork(CALLS):
        ctx.raises(lambda: e.step(room * case["over"]), (Exception, ), "a derivative that becomes non-finite within the step", value=case["value"])
    same(ctx, e, snap, "non-finite derivative")
    for x in (e, twin):
        x.step(0.3 * room)
    ctx.close(state_of(e), state_of(twin), 0, "the step after a non-finite derivative differs")
    ctx.close(state_of(e)[0], case["x0"][0] + 0.3 * room, 1e-6, "a valid step of the same model is wrong")
    ctx.obs("non-finite derivatives")


def run_nan(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    e, twin = build(spec), build(spec)
    for h, u in case["prior"]:
        e.step(h, arr(u))
        twin.step(h, arr(u))
    snap = snapshot(e)
    k = case["which"] % ref.nu
    u = arr(case["u"])
    u[k] = np.nan
    for act in (u.copy(), u.tolist(), {ref.controls[k]: float("nan")} if (spec["kind"] != "custom" or spec.get("names")) else u.copy()):
        if spec["kind"] == "custom" and not np.any(arr(spec["B"])[:, k]):
            pass
        with BoundedWork(CALLS):
            ctx.raises(lambda: e.step(case["h"], act), (Exception, ), "a control that is not a number", actuator=k)
        same(ctx, e, snap, "NaN control")
        ctx.obs("NaN controls")
    twin_after(ctx, e, twin, case["next"], ref, "NaN control")


def run_action(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    names = list(ref.controls)
    named = spec["kind"] != "custom" or bool(spec.get("names"))
    e, twin = build(spec), build(spec)
    for h, u in case["prior"]:
        e.step(h, arr(u))
        twin.step(h, arr(u))
    u, h = case["u"], case["h"]
    for f in case["fails"]:
        snap = snapshot(e)
        hh = h
        nu = ref.nu
        if f == "longer":
            act = np.array(list(u) + [0.1])
        elif f == "shorter":
            if nu < 3:
                continue
            act = np.array(u[:-1])
        elif f in ("unknown", "late", "dictvalue"):
            if not named:
                continue
            act = {"unknown": {"warp_drive": 0.1}, "late": {**{n: 0.2 for n in names}, "warp_drive": 0.1},
                   "dictvalue": {**{n: 0.01 for n in names[:-1]}, names[-1]: "full"}}[f]
        elif f == "type":
            act = (tuple(u), 3, 2.5, "up", {0.1, 0.2}, b"up", np.float64(0.3))[case["which"] % 7]
        elif f == "text":
            act = np.array(["a"] * nu)
        elif f == "none-in-list":
            act = list(u[:-1]) + ["x"]
        elif f == "nested":
            act = [[0.1] * nu, [0.1]]
        else:
            act = np.array(u)
            hh = "long" if f == "step-text" else None
        ctx.raises(lambda: e.step(hh, act), (Exception, ), "an invalid action or step length (" + f + ")", action=repr(act)[:80])
        same(ctx, e, snap, f)
        ctx.obs("invalid steps")
    twin_after(ctx, e, twin, case["next"], ref, "invalid actions")
