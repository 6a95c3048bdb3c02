"""C13: steps compose; no dependence on absolute time or history."""
import numpy as np

from ..kinds import KINDS, arr, build, gen, gen_custom, gen_h, gen_u, logu, make_ref, maybe, pick, state_of
from ..session import gen_steps

N = {"quick": 1600, "thorough": 10000}


def make(rng, i, tier):
    kinds = KINDS + ("custom", "sun")
    kind = kinds[i % len(kinds)]
    o = ("split", "history", "split", "zero", "clock", "split", "history", "drip")[(i // len(kinds)) % 8]
    m = "RK45"
    if o in ("history", "zero") and maybe(rng, 0.3):
        m = "Euler"
    if kind in ("rot2d", "sun") and i % 4 == 1 and o != "zero" and maybe(rng, 0.25):
        m = "RK45_JAX"
    spec = gen_custom(rng, method=m, limits=pick(rng, "none", "none", "xd")) if kind == "custom" else gen(rng, kind, method=m)
    ref = make_ref(spec)
    case = {"oracle": o, "spec": spec, "u": gen_u(rng, ref)}
    kk = spec if kind == "custom" else kind
    case["h"] = gen_h(rng, kk, 0.15)
    if kind == "sixdof":
        case["h"] = min(case["h"], 6 / max(float(np.max(ref.velmax)), 1e-2))
    if o == "split":
        n = int(rng.integers(2, 7))
        w = rng.uniform(0.05, 1, n) ** pick(rng, 1, 3)
        case["parts"] = (case["h"] * w / w.sum()).tolist()
    elif o == "zero" and m == "RK45" and kind != "sun" and maybe(rng, 0.3):
        spec["samples"] = int(rng.integers(1, 6))
    elif o == "history":
        case["prior"] = gen_steps(rng, ref, kk, int(rng.integers(1, 8)), long_p=0.1)
        if m != "RK45_JAX" and not spec.get("jax") and maybe(rng, 0.1):  # a long life
            case["prior"] = gen_steps(rng, ref, kk, int(rng.integers(60, 700)), long_p=0.0, hold_p=0.9, hmax=0.02)
    elif o == "drip":
        case["spec"] = spec = gen(rng, kind if kind != "custom" else "int1", method=pick(rng, "RK45", "Euler"))
        spec.pop("jax", None)
        case["far"] = [sgn * logu(rng, 1e5, 1e9) for sgn in rng.choice([-1, 1], 3).tolist()]
        case["h"], case["n"] = logu(rng, 1e-4, 1e-1), int(rng.integers(30, 120))
    elif o == "clock":
        case["h"] = logu(rng, 1e-6, 3e4)
        case["n"] = int(rng.integers(1, 5))
        if kind == "custom":
            case["spec"]["model"] = "lin"
            case["spec"].update(A=[[0.0]], B=[[0.7]], x0=[0.1], wrap=None, xmin=None, xmax=None, dmin=None, dmax=None, umin=-1, umax=1,
                                default=None, names=None)
            case["u"] = [float(rng.uniform(0.1, 1))]
    return case


def linear_motion(spec, u):
    """The same entity configured so that its positions grow linearly; (spec, reference, control)."""
    k = spec["kind"]
    if k in ("cwh", "sixdof", "rot2d"):  # zero mean motion: straight lines
        spec = dict(spec, kw=dict(spec["kw"], n=0.0))
    elif k.startswith("int"):
        spec = dict(spec, kw=dict(spec["kw"], damping=0))
    elif k == "dub3":
        spec = dict(spec, x0=spec["x0"][:5] + [0.0] + spec["x0"][6:])
    ref = make_ref(spec)
    return spec, ref, (u if k in ("custom", "sun") else np.zeros(ref.nu))


def run(case, ctx):
    spec, o = case["spec"], case["oracle"]
    ref = make_ref(spec)
    ang = list(ref.wrap)
    u, h = arr(case["u"]), case["h"]
    act = (lambda: u.copy()) if ref.nu else (lambda: None)
    uc = ref.clip_u(u)
    jax = spec["method"] == "RK45_JAX" or spec.get("jax")
    if o == "split":
        a, b = build(spec), build(spec)
        x = state_of(a)
        a.step(h, act())
        xe = ref.exact(x, uc, h)
        tol = ref.tolerance(x, uc, h, xe, spec["method"])
        y = x
        for p in case["parts"]:
            b.step(p, act())
            tol = tol + 2 * ref.tolerance(y, uc, p, ref.exact(y, uc, p), spec["method"])
            y = state_of(b)
        ctx.close(y, state_of(a), tol, "a step differs from the same time taken in several steps", angles=ang, h=h, parts=case["parts"], control=u,
                  start=x)
        ctx.obs("splits compared")
    elif o == "zero":
        a = build(spec)
        x = state_of(a)
        if spec["method"] == "RK45_JAX":
            return
        a.step(0, act())
        x1 = state_of(a)
        ctx.close(x1, x, 1e-12 * np.abs(x) + (1e-6 * np.abs(x) + 1e-6 if jax else 0) + 1e-14 + np.abs(np.clip(x, ref.xmin, ref.xmax) - x),
                  "a zero-length step changed the state", angles=ang)
        a.step(h, act())
        b = build(spec)
        b.step(h, act())
        ctx.close(state_of(a), state_of(b), 1e-6 * ref.scale(x, state_of(b), h, uc) + 1e-9 + (1e-3 * np.abs(x) if jax else 0),
                  "a zero-length step affected the next one", angles=ang, h=h)
        ctx.obs("zero-length steps")
    elif o == "history":
        a, b = build(spec, name="a"), build(spec, name="b")
        for hh, uu in case["prior"]:
            a.step(hh, arr(uu) if ref.nu else None)
        x = a.state
        b.state = x
        for _ in range(2):
            a.step(h, act())
            b.step(h, act())
            ctx.close(state_of(a), state_of(b), 1e-12 * np.abs(state_of(b)), "the outcome of a step depends on more than the current state", h=h, control=u)
            ctx.close(np.asarray(a.state_dot, float), np.asarray(b.state_dot, float), 1e-12 * np.abs(np.asarray(b.state_dot, float)),
                      "the derivative depends on more than the current state", h=h, control=u)
        # and of its own start: x again gives the same again
        a.state = x
        a.step(h, act())
        first = state_of(a)
        a.state = x
        a.step(h, act())
        ctx.close(state_of(a), first, 1e-12 * np.abs(first), "repeating a step from the same state gives another outcome", h=h)
        ctx.obs("histories compared")
        if not jax:  # a duration is its value, however it is represented
            a.state, hh = x, float(np.float32(h))
            for w in (hh, np.float64(hh), np.float32(hh), np.array(hh), max(1, int(h)), float(max(1, int(h))), np.int64(max(1, int(h)))):
                a.state, b.state = x, x
                a.step(w, act())
                b.step(float(w), act())
                ctx.close(state_of(a), state_of(b), 1e-6 * np.abs(state_of(b)) + 1e-9, "the outcome depends on how the duration is represented", angles=ang, given=repr(type(w)), h=float(w))
                ctx.obs("representations of a duration")
    elif o == "drip":
        # many short steps far from the origin: progress below single precision must not be lost
        spec, ref, u = linear_motion(spec, u)
        a = build(spec)
        x = state_of(a)
        pos = list(ref.pos) if hasattr(ref, "pos") else [0]
        x[pos] = case["far"][:len(pos)]
        a.state = x
        rate = ref.f(x, u)[pos]
        for _ in range(case["n"]):
            a.step(h, u.copy() if ref.nu else None)
        T = h * case["n"]
        x1 = state_of(a)
        ctx.close(x1[pos], x[pos] + rate * T, 3e-6 * np.abs(ref.mag(x, u)[pos]) * T + 1e-14 * np.abs(x[pos]) * case["n"] + 1e-12,
                  "short steps far from the origin lose progress", h=h, n=case["n"], start=x, method=spec["method"])
        ctx.obs("long sequences of short steps", case["n"])
    else:
        # clocks: a component that grows exactly linearly measures the time actually simulated
        k = spec["kind"]
        spec, ref, u = linear_motion(spec, u)
        a = build(spec)
        act = (lambda: u.copy()) if ref.nu else (lambda: None)
        x = state_of(a)
        rate = ref.f(x, u)
        if k == "custom":
            rate = ref.f(x, ref.clip_u(u))
        pos = list(ref.pos) if hasattr(ref, "pos") else [0]
        if k == "sixdof" and np.any(x[10:13]) and h > 50:
            h = 50.0
        for _ in range(case["n"]):
            x = state_of(a)
            a.step(h, act())
            x1 = state_of(a)
            tol = 3e-6 * np.abs(rate[pos]) * h + 3e-6 * np.abs(x[pos]) + 1e-9
            if jax:
                tol = 1e-4 * np.abs(rate[pos]) * h + 1e-5 * np.abs(x[pos]) + 1e-6
            if k == "dub2" or k == "dub3":
                tol = tol + 1e-6 * ref.mag(x, u)[pos] * h
            ctx.close(x1[pos], x[pos] + rate[pos] * h, tol, "a step did not advance for the requested duration", h=h, start=x)
        ctx.obs("durations measured")
    ctx.obs("kind " + spec["kind"])
    ctx.nontrivial()
