"""C16: isolation of entities, and of exchanged arrays."""
import numpy as np

from .. import kinds
from ..kinds import KINDS, METHODS, arr, build, gen, gen_custom, gen_h, gen_libdyn, gen_state, gen_u, make_ref, maybe, pick, state_of
from ..session import expected_step

N = {"quick": 3000, "thorough": 6000}


def fit(spec, x0):
    """The state x0 kept within the limits of spec."""
    r = make_ref(spec)
    x = np.clip(arr(x0), r.xmin, r.xmax)
    for j, c in r.wrap.items():
        x[j] = (x[j] - c + np.pi) % (2 * np.pi) - np.pi + c
    return x.tolist()


def gen_siblings(rng):
    """Entities of one kind, of differing parameters, living the same moments."""
    kind = pick(rng, *(KINDS + ("custom", "libdyn", "sun")))
    m = pick(rng, "RK45", "RK45", "Euler")
    if kind == "custom":
        a = gen_custom(rng, method=m, jax=False)
        b = dict(a)
        if a["model"] == "lin":
            b["A"] = (arr(a["A"]) * rng.uniform(-1, 1, np.shape(a["A"]))).round(9).tolist()
            b["B"] = (arr(a["B"]) * rng.uniform(-1, 1, np.shape(a["B"]))).round(9).tolist()
        else:
            b.update(k=round(a["k"] * rng.uniform(0.3, 3), 9), c=round(a["c"] * rng.uniform(0.3, 3), 9))
        out = [a, b]
    elif kind == "libdyn":
        base = pick(rng, "cwh", "int1", "int2", "int3", "dub2", "dub3", "rot2d", "sixdof", "sun")
        out = [gen_libdyn(rng, base=base, method=m) for _ in range(2)]
    else:
        out = [gen(rng, kind, method=m, default_p=0.3) for _ in range(int(rng.integers(2, 4)))]
    for _ in range(2):  # one state that suits all
        for s in out:
            out[0]["x0"] = fit(s, out[0]["x0"])
    for s in out[1:]:
        s["x0"] = list(out[0]["x0"])
    out = [s for s in out if np.array_equal(fit(s, s["x0"]), s["x0"])]
    refs = [make_ref(s) for s in out]
    lo, hi = np.max([r.umin for r in refs], axis=0), np.min([r.umax for r in refs], axis=0)
    refs[0].umin[:], refs[0].umax[:] = np.minimum(lo, hi), np.maximum(lo, hi)
    return out, [[min(gen_h(rng, out[0] if kind == "custom" else kind, 0.02), 20), gen_u(rng, refs[0])] for _ in range(int(rng.integers(2, 6)))]


def make(rng, i, tier):
    if i % 6 == 1:
        ents, steps = gen_siblings(rng)
        return {"oracle": "siblings", "ents": ents, "steps": steps}
    if i % 12 == 3:
        ents, steps = gen_siblings(rng)
        births = []
        for _ in range(int(rng.integers(1, 3))):
            o = pick(rng, "jax", "custom", "any", "libdyn")
            if o == "jax" and maybe(rng, 0.25):
                s = gen(rng, "rot2d", method="RK45_JAX")
            elif o in ("jax", "custom"):
                s = gen_custom(rng, method="RK45", jax=o == "jax" or None)
            else:
                s = gen(rng, pick(rng, *KINDS)) if o == "any" else gen_libdyn(rng)
            births.append([s, min(gen_h(rng, s if s["kind"] == "custom" else "cwh", 0.0), 1.0), gen_u(rng, make_ref(s))])
        return {"oracle": "births", "ents": ents, "steps": steps, "births": births}
    ents = []
    pool = [pick(rng, *(KINDS + ("custom", "custom"))) for _ in range(2)]
    for _ in range(int(rng.integers(2, 5))):
        kind = pick(rng, *pool)
        if ents and maybe(rng, 0.4):  # a twin of an existing one
            s = dict(ents[int(rng.integers(len(ents)))])
        elif kind == "custom":
            s = gen_custom(rng, method=pick(rng, "RK45", "Euler"), jax=False)
        else:
            s = gen(rng, kind, method=pick(rng, *METHODS[kind][:2]))
            if maybe(rng, 0.2):
                s["samples"] = 3
                s["method"] = "RK45"
        ents.append(s)
    ops = []
    for _ in range(int(rng.integers(8, 25))):
        k = int(rng.integers(len(ents)))
        s = ents[k]
        ref = make_ref(s)
        o = pick(rng, "step", "step", "step", "step", "read", "set", "direct", "refused")
        op = {"e": k, "op": o}
        if o in ("step", "direct"):
            op.update(h=min(gen_h(rng, s if s["kind"] == "custom" else s["kind"], 0.02), 20), u=gen_u(rng, ref),
                      form=pick(rng, "array", "array", "dict", "none", "list"))
            if maybe(rng, 0.1):
                op["u"] = (arr(op["u"]) * 5).tolist()
        elif o == "set":
            op["x"] = gen_state(rng, s) if s["kind"] != "custom" else s["x0"]
        ops.append(op)
    return {"ents": ents, "ops": ops, "share": maybe(rng, 0.4), "poison": pick(rng, 1e30, -7.0, float("nan"))}


def poison(a, v):
    if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
        a[...] = v


def make_entity(spec, name, v=None, ctx=None):
    """Build; with v given, the matrices used are overwritten afterwards."""
    if v is None:
        return build(spec, name=name)
    if spec["kind"] == "custom" and spec["model"] == "lin":
        from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
        A, B = arr(spec["A"]), arr(spec["B"])
        orig = kinds.BaseLinearODESolverDynamics
        try:
            kinds.BaseLinearODESolverDynamics = lambda _a, _b, **kw: orig(A, B, **kw)
            e = build(spec, name=name)
        finally:
            kinds.BaseLinearODESolverDynamics = orig
        poison(A, v)
        poison(B, v)
        return e
    if spec["kind"] == "sixdof" and "inertia" in spec["kw"]:
        J = np.diag(arr(spec["kw"]["inertia"]))
        extra = {"inertia_matrix": J}
        al, vl = spec["kw"].get("ang_acc_limit"), spec["kw"].get("ang_vel_limit")
        if isinstance(al, list):
            extra.update(ang_acc_limit=np.array(al), ang_vel_limit=np.array(vl))
        keep = {k: a.copy() for k, a in extra.items()}
        e = build(spec, name=name, **extra)
        for k, a in extra.items():
            ctx.check(np.array_equal(a, keep[k]), "building an entity modified an array it was given", given=k)
            ctx.obs("constructor arrays overwritten")
            poison(a, v)
        return e
    return build(spec, name=name)


def readings(e):
    out = {"state": e.state}
    for n in ("position", "velocity", "acceleration", "quaternion", "angular_velocity"):
        try:
            out[n] = getattr(e, n)
        except (AttributeError, NotImplementedError):
            pass
    return out


def apply(e, spec, ref, op, ctx=None, v=None):
    """Apply an operation; with v, poison everything exchanged and check that nothing given was modified."""
    o = op["op"]
    if o == "step":
        u = arr(op["u"])
        form = op["form"]
        if form == "dict" and spec["kind"] == "custom" and not spec.get("names"):
            form = "array"
        action = {"array": u, "dict": dict(zip(ref.controls, op["u"])), "list": list(op["u"]), "none": None}[form]
        e.step(op["h"], action)
        if ctx is not None:
            if form == "array":
                ctx.check(np.array_equal(u, arr(op["u"])), "stepping modified the given action")
                poison(u, v)
            elif form == "dict":
                ctx.check(action == dict(zip(ref.controls, op["u"])), "stepping modified the given action")
                for key in action:
                    action[key] = v
            elif form == "list":
                ctx.check(action == list(op["u"]), "stepping modified the given action")
                action[:] = [v] * len(action)
            ctx.obs("actions overwritten")
    elif o == "set":
        x = arr(op["x"])
        e.state = x
        if ctx is not None:
            ctx.check(np.array_equal(e.state, arr(op["x"])), "the state set is not the state read")
            poison(x, v)
    elif o == "direct":
        # the model itself, without stepping the entity
        x, u = e.state, arr(op["u"])
        x0, u0 = x.copy(), u.copy()
        x1, sd = e.dynamics.step(op["h"], x, u)
        if ctx is not None:
            ctx.check(np.array_equal(x, x0) and np.array_equal(u, u0), "the model modified the given state or control")
            poison(x, v)
            poison(u, v)
            if isinstance(x1, np.ndarray):
                poison(x1, v)
                poison(sd, v)
    elif o == "refused":
        try:
            e.step(0.1, "nonsense")
        except ValueError:
            pass
    elif o == "read" and ctx is not None:
        for n, r in readings(e).items():
            if isinstance(r, np.ndarray):
                before = state_of(e)
                keep = np.array(r)
                poison(r, v)
                ctx.check(np.array_equal(before, state_of(e)), "overwriting a reading changed the entity", reading=n)
                again = np.asarray(getattr(e, n), dtype=float)
                ctx.check(np.allclose(again, keep, rtol=1e-12, atol=0, equal_nan=True), "overwriting a reading changed later readings", reading=n)
                ctx.obs("readings overwritten")


def run_siblings(case, ctx):
    """Each sibling's every step is its own model's, whatever the others just computed from the same numbers."""
    refs = [make_ref(s) for s in case["ents"]]
    es = [build(s, name=f"e{k}") for k, s in enumerate(case["ents"])]
    x = state_of(es[0])
    for n, (h, u) in enumerate(case["steps"]):
        for e, ref, s in zip(es, refs, case["ents"]):
            xi = x.copy() if np.all((x >= ref.xmin) & (x <= ref.xmax)) else state_of(e)
            e.state = xi.copy()
            e.step(h, arr(u))
            xe, tol = expected_step(ref, xi, ref.clip_u(arr(u)), h, s["method"])
            ctx.close(state_of(e), xe, tol, "an entity among others of its kind does not move by its own model", angles=list(ref.wrap), h=h, control=u,
                      start=xi, step=n, kind=s["kind"])
            ctx.obs("sibling steps compared")
        x = state_of(es[n % len(es)])
    ctx.nontrivial()


def run_births(case, ctx):
    """Building and stepping further entities changes no bit of what the earlier ones do."""
    s = case["ents"][0]

    def life(e):
        out = []
        for h, u in case["steps"]:
            e.step(h, arr(u))
            out.append(np.concatenate([state_of(e), np.array(e.state_dot, dtype=float)]))
        return out
    before = life(build(s, name="before"))
    early = [build(s, name="early") for _ in case["births"]]
    first = build(s, name="early twin")
    first.step(case["steps"][0][0], arr(case["steps"][0][1]))

    def same(e, what):
        for a, b in zip(life(e), before):
            ctx.close(a, b, 1e-13 * np.abs(b) + 1e-300, "the birth of another entity changed this one's motion, " + what, kind=s["kind"])
    for e, (spec, h, u) in zip(early, case["births"]):
        other = build(spec, name="other")
        if h > 0.02:
            same(e, "built before")
        other.step(h, arr(u))
        if h <= 0.02:
            same(e, "built before, the other having stepped")
        ctx.obs("births of " + spec["kind"] + (" with JAX" if spec.get("jax") or spec["method"] == "RK45_JAX" else ""))
    same(build(s, name="late"), "built after")
    for h, u in case["steps"][1:]:
        first.step(h, arr(u))
    last = np.concatenate([state_of(first), np.array(first.state_dot, dtype=float)])
    ctx.close(last, before[-1], 1e-13 * np.abs(last) + 1e-300, "the birth of another entity changed the rest of this one's motion", kind=s["kind"])
    ctx.nontrivial()


def run(case, ctx):
    kinds.GIVEN = []
    try:
        {"siblings": run_siblings, "births": run_births}.get(case.get("oracle"), run_many)(case, ctx)
        for a, copy_ in kinds.GIVEN:
            ctx.check(np.array_equal(a, copy_, equal_nan=True), "an array given to a constructor was modified", given=copy_, now=a)
        ctx.obs("constructor arrays watched", len(kinds.GIVEN))
    finally:
        kinds.GIVEN = None


def run_many(case, ctx):
    ents, v = case["ents"], float(case["poison"])
    refs = [make_ref(s) for s in ents]
    es = [make_entity(s, f"e{k}", v, ctx) for k, s in enumerate(ents)]
    for k, s in enumerate(ents):  # twins may as well be given one model between them
        for j in range(k):
            if case.get("share") and ents[j] == s and s["kind"] != "custom" and type(es[j]) is type(es[k]):
                es[k].dynamics = es[j].dynamics
                ctx.obs("models shared by two entities")
                break
    logs = [[] for _ in ents]
    held = []
    for n, op in enumerate(case["ops"]):
        k = op["e"]
        others = [state_of(e) for e in es]
        apply(es[k], ents[k], refs[k], op, ctx, v)
        for j, e in enumerate(es):
            if j != k:
                ctx.check(np.array_equal(others[j], state_of(e)), "operating one entity changed another", operated=ents[k]["kind"], changed=ents[j]["kind"],
                          op=op["op"])
        for name, r in readings(es[k]).items():
            if isinstance(r, np.ndarray):
                held.append((r, np.array(r), name))
        logs[k].append((state_of(es[k]), np.array(es[k].state_dot, dtype=float)))
    for r, copy_, name in held:
        ctx.check(np.array_equal(r, copy_, equal_nan=True), "a reading changed after it was taken", reading=name)
    ctx.obs("snapshots held", len(held))
    # solo replays in fresh entities, without overwriting anything
    for k, s in enumerate(ents):
        e = make_entity(s, "solo")
        mine = [op for op in case["ops"] if op["e"] == k]
        for (x, sd), op in zip(logs[k], mine):
            apply(e, s, refs[k], op)
            xs = state_of(e)
            ctx.close(x, xs, 1e-12 * np.abs(xs) + 1e-15, "interleaved and solo histories differ", kind=s["kind"], op=op["op"])
            sds = np.array(e.state_dot, dtype=float)
            ctx.close(sd, sds, 1e-12 * np.abs(sds) + 1e-15, "interleaved and solo derivatives differ", kind=s["kind"], op=op["op"])
            ctx.obs("solo operations compared")
    ctx.nontrivial()
