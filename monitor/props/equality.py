"""C21: equality is equality of kinematic state."""
import numpy as np

from safe_autonomy_dynamics.dubins import BaseDubinsAircraft, Dubins2dDynamics
from safe_autonomy_dynamics.integrators import BaseIntegrator, IntegratorDynamics

from ..kinds import KINDS, own_class, OWN, arr, build, gen, gen_state, gen_u, gen_h, make_ref, maybe, pick, logu, state_of

N = {"quick": 6400, "thorough": 20000}
ANG = {"rot2d": {2}, "dub2": {2}, "dub3": {3, 4, 5}}


class OwnIntegrator(BaseIntegrator):
    """A user's own kind of point mass, compared as the base class does."""

    def __init__(self, dim, x0, **kw):
        self.dim, self.x0 = dim, x0
        super().__init__(IntegratorDynamics(m=1, mode=f"{dim}d"), control_default=np.zeros(dim), control_min=-1, control_max=1, control_map=None, **kw)

    def _build_state(self):
        return np.array(self.x0, float)

    x = property(lambda self: self._state[0])
    y = property(lambda self: self._state[1] if self.dim > 1 else 0)
    z = property(lambda self: self._state[2] if self.dim > 2 else 0)
    position = property(lambda self: self._state[:self.dim].copy())
    velocity = property(lambda self: self._state[self.dim:].copy())


class OwnAircraft(BaseDubinsAircraft):
    """A user's own kind of aircraft: planar, with a bank angle of its own choosing."""

    def __init__(self, x0, **kw):
        self.x0 = x0
        super().__init__(Dubins2dDynamics(), control_default=np.zeros(2), **kw)

    def _build_state(self):
        return np.array(self.x0, float)

    x = property(lambda self: self._state[0])
    y = property(lambda self: self._state[1])
    z = property(lambda self: 0.0)
    heading = property(lambda self: self._state[2])
    v = property(lambda self: self._state[3])
    gamma = property(lambda self: 0.0)
    roll = property(lambda self: 0.1 * np.sin(self._state[0]))
    position = property(lambda self: np.array([self.x, self.y, 0.0]))
    acceleration = property(lambda self: self.state_dot[3] * self.orientation.apply([1, 0, 0]))


class EqAny:
    """Claims to equal everything; an entity must not look inside it."""
    position = velocity = None


def make(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    o = ("perturb", "perturb", "history", "kinds")[(i // len(KINDS)) % 4]
    spec = gen(rng, kind, method=pick(rng, "RK45", "Euler"))
    other = gen(rng, kind, method="RK45", init=False)
    case = {"oracle": o, "spec": spec, "other": other}
    ref = make_ref(spec)
    if o == "perturb":
        # states can be set in double precision; entities are built in single, and aircraft publish single precision
        case["f64"] = maybe(rng, 0.5) and kind not in ("dub2", "dub3")
        case["rel"] = logu(rng, 1e-12 if case["f64"] else 1e-6, 1.0)
        case["sign"] = pick(rng, -1, 1)
        case["axis"] = rng.normal(size=3).tolist()
    elif o == "history":
        case["ops"] = [[min(gen_h(rng, kind, 0), 5), gen_u(rng, ref)] for _ in range(int(rng.integers(2, 6)))]
        case["split"] = int(rng.integers(0, len(case["ops"])))
    else:
        case["specs"] = [gen(rng, k, method="RK45") for k in KINDS + ("sun", )]
        case["zero"] = maybe(rng, 0.5)
        dim = int(rng.integers(1, 4))
        case["own"] = {"dim": dim, "x0": rng.uniform(-100, 100, 2 * dim).tolist(), "k": int(rng.integers(2 * dim)), "by": logu(rng, 1e-9, 1), "plane": (rng.uniform(-1, 1, 4) * [100, 100, 3, 100] + [0, 0, 0, 250]).tolist(),
                       "j": int(rng.integers(4)), "off": logu(rng, 1e-3, 1)}
    return case


def same(ctx, a, b, what, **d):
    for p, q, side in ((a, b, "left"), (b, a, "right")):
        ctx.check(bool(p == q) is True, what + ": not equal", side=side, **d)
        ctx.check(bool(p != q) is False, what + ": both equal and different", side=side, **d)
    ctx.obs("pairs equal")


def differ(ctx, a, b, what, **d):
    for p, q, side in ((a, b, "left"), (b, a, "right")):
        ctx.check(bool(p == q) is False, what + ": equal", side=side, **d)
        ctx.check(bool(p != q) is True, what + ": neither equal nor different", side=side, **d)
    ctx.obs("pairs unequal")


def qmul(a, b):
    return np.concatenate([a[3] * b[:3] + b[3] * a[:3] + np.cross(a[:3], b[:3]), [a[3] * b[3] - np.dot(a[:3], b[:3])]])


def run(case, ctx):
    spec, o = case["spec"], case["oracle"]
    kind = spec["kind"]
    ref = make_ref(spec)
    a = build(spec, name="a")
    same(ctx, a, a, "an entity and itself")
    for junk in (None, 0, 1.5, "a", object(), [], {}, EqAny(), spec, a.name):
        ctx.check(not bool(a == junk), "an entity equals something that is not an entity", other=repr(type(junk)))
        ctx.check(bool(a != junk), "an entity does not differ from something that is not an entity", other=repr(type(junk)))
    if o == "perturb":
        b = build(dict(case["other"], x0=spec["x0"]), name="b")
        same(ctx, a, b, "entities with the same state")
        x = state_of(a)
        dt = np.float64 if case["f64"] else a.state.dtype
        a.state, b.state = x.astype(dt), x.astype(dt)
        same(ctx, a, b, "entities set to the same state")
        derived = (type(a).__mro__[1] if type(a) in OWN.values() else own_class(type(a)))(name="d")
        derived.state = x.astype(dt)
        same(ctx, a, derived, "an entity and one of a derived class in the same state")
        variants = []
        if kind == "sixdof":
            n = arr(case["axis"]) / np.linalg.norm(case["axis"])
            ang = 0.5 * max(case["rel"], 1e-3) * case["sign"]
            q = qmul(x[3:7], np.concatenate([np.sin(ang) * n, [np.cos(ang)]]))
            y = x.copy()
            y[3:7] = q / np.linalg.norm(q)
            variants.append(("attitude", y))
            for k in (3, 4, 5, 6):
                y = x.copy()
                y[k] = -x[k]
                if 1e-2 < abs(x[k]) and abs(np.dot(x[3:7], y[3:7])) < 1 - 1e-4:
                    variants.append(("attitude mirrored", y))
        for k, s in enumerate(ref.states):
            if kind == "sixdof" and 3 <= k < 7:
                continue
            y = x.copy()
            d = case["rel"] * case["sign"] * max(abs(x[k]), 1e-2)
            if k in ANG.get(kind, ()):
                d = case["sign"] * min(0.5, max(abs(d), 1e-3))
            if kind in ("dub2", "dub3") and s == "v":
                d = abs(d)
            y[k] = x[k] + d
            variants.append((s, y))
            if s != "v" and abs(x[k]) > 1e-3 and not (k in ANG.get(kind, ()) and np.pi - abs(x[k]) < 1e-2):
                y = x.copy()
                y[k] = -x[k]
                variants.append((s + " mirrored", y))
        for i in range(len(x)):
            for j in range(i):  # the same numbers in other places
                q = kind == "sixdof" and (3 <= i < 7 or 3 <= j < 7)
                if q and not (3 <= i < 7 and 3 <= j < 7):
                    continue
                if {i, j} & ANG.get(kind, set()) or "v" in (ref.states[i], ref.states[j]):
                    continue
                y = x.copy()
                y[[i, j]] = x[[j, i]]
                if abs(x[i] - x[j]) > 1e-3 * max(abs(x[i]), abs(x[j]), 1e-2) and (not q or abs(np.dot(x[3:7], y[3:7])) < 1 - 1e-4):
                    variants.append((f"{ref.states[j]} and {ref.states[i]} exchanged", y))
        for s, y in variants:
            b.state = y.astype(dt)
            ctx.obs("component " + kind + " " + s)
            ctx.obs("differences below 1e-6", int(case["rel"] < 1e-6))
            differ(ctx, a, b, "entities whose states differ in one component", component=s, first=x, second=y)
            b.state = x.astype(dt)
            same(ctx, a, b, "entities with the same state again", component=s)
            # built with it, rather than set
            if case["rel"] < 1e-6:
                continue
            c = build(dict(spec, x0=y.tolist()), name="c")
            differ(ctx, a, c, "entities built with states differing in one component", component=s, first=x, second=y)
    elif o == "history":
        b = build(spec, name="b")
        for k, (h, u) in enumerate(case["ops"]):
            if k == case["split"]:
                a.step(h, arr(u))
                if not np.array_equal(visible(a, kind), visible(b, kind)):
                    differ(ctx, a, b, "entities one of which has moved on", step=k)
                b.step(h, arr(u))
            else:
                a.step(h, arr(u))
                b.step(h, arr(u))
            same(ctx, a, b, "entities after the same history", step=k)
        # drive them apart, then back together
        u2 = np.where(arr(case["ops"][-1][1]) > 0, ref.umin, ref.umax)
        a.step(1.0, arr(case["ops"][-1][1]))
        b.step(1.0, u2)
        xa, xb = state_of(a), state_of(b)
        if np.max(np.abs(xa - xb) / np.maximum(np.abs(xa), 1e-2)) > 1e-4:
            differ(ctx, a, b, "entities driven apart", first=xa, second=xb)
        c = build(dict(case["other"], x0=spec["x0"]), name="c")
        c.state = a.state
        c.state_dot = a.state_dot.copy()
        same(ctx, a, c, "entities brought to the same state")
        if kind in ("dub2", "dub3"):  # the same state, but speeding up differently
            b.state = a.state
            ga, gb = float(a.state_dot[-1]), float(b.state_dot[-1])
            if abs(ga - gb) > 1e-3 * max(abs(ga), abs(gb)):
                differ(ctx, a, b, "aircraft in the same state under different accelerations", first=ga, second=gb)
                ctx.obs("accelerations differing")
            d = a.state_dot.copy()
            d[-1] += max(1e-3, abs(d[-1]) * 1e-3)
            b.state_dot = d
            differ(ctx, a, b, "aircraft in the same state under different accelerations", first=a.state_dot[-1], second=d[-1])
            b.state_dot = a.state_dot.copy()
            same(ctx, a, b, "aircraft in the same state under the same acceleration")
    else:
        es = []
        for s in case["specs"]:
            if case["zero"] and s["kind"] not in ("sixdof", "dub2", "dub3"):
                s = dict(s, x0=[0.0] * len(s["x0"]))
            elif case["zero"] and s["kind"] == "sixdof":
                s = dict(s, x0=[0.0] * 6 + [1.0] + [0.0] * 6)
            elif case["zero"]:
                s = dict(s, x0=[0.0] * (len(s["x0"]) - 1) + [300.0])
                s["kw"] = {}
            es.append((s["kind"], build(s, name="same")))
        for ka, p in es:
            for kb, q in es:
                if ka != kb:
                    differ(ctx, p, q, "entities of different kinds", kinds=[ka, kb])
        w = case["own"]
        p, q = OwnIntegrator(w["dim"], w["x0"], name="p"), OwnIntegrator(w["dim"], w["x0"], name="q")
        same(ctx, p, q, "point masses of a user's kind with the same state")
        x = np.array(w["x0"], float)
        x[w["k"]] += w["by"]
        q.state = x
        differ(ctx, p, q, "point masses of a user's kind differing in one component", component=w["k"], by=w["by"])
        g, f = OwnAircraft(w["plane"], name="p"), OwnAircraft(w["plane"], name="q")
        same(ctx, g, f, "aircraft of a user's kind with the same state")
        x = np.array(w["plane"], float)
        x[w["j"]] += w["off"]
        f.state = x
        differ(ctx, g, f, "aircraft of a user's kind differing in one component", component=w["j"], by=w["off"])
        ctx.obs("entities of a user's kind")
        for junk in (None, 1, "p", object(), EqAny()):
            ctx.check(not bool(p == junk) and not bool(g == junk), "an entity of a user's kind equals something that is not an entity", other=repr(type(junk)))
        for kb, r in es:
            # (base comparisons look at all that share the base, so only those without it must differ)
            if not isinstance(r, BaseIntegrator):
                ctx.check(not bool(p == r), "entities of different kinds: equal", kinds=["own", kb])
            if not isinstance(r, BaseDubinsAircraft):
                ctx.check(not bool(g == r), "entities of different kinds: equal", kinds=["own", kb])
    ctx.nontrivial()


def visible(e, kind):
    v = [np.atleast_1d(e.position), np.atleast_1d(e.velocity)]
    if kind in ("rot2d", "sixdof"):
        v += [e.quaternion, e.angular_velocity]
    if kind in ("dub2", "dub3"):
        v += [[e.heading, e.gamma, e.roll], e.acceleration]
    return np.concatenate([np.asarray(p, float) for p in v])
