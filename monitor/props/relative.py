"""C22: relative readings between craft of one simulation."""
import types

import numpy as np

from safe_autonomy_dynamics.base_models import BaseRotationEntity

from ..kinds import SPACECRAFT, arr, build, gen, gen_h, gen_state, gen_u, make_ref, maybe, pick

N = {"quick": 2700, "thorough": 12000}


class Sim:
    def __init__(self, entities):
        self.sim_entities = entities


def make(rng, i, tier):
    n = int(rng.integers(2, 6))
    crafts = []
    for k in range(n):
        kind = pick(rng, *SPACECRAFT) if k else SPACECRAFT[i % 3]
        crafts.append(gen(rng, kind, method=pick(rng, "RK45", "RK45", "Euler")))
    extra = [gen(rng, pick(rng, "dub2", "dub3", "int3")) for _ in range(int(rng.integers(0, 3)))]
    ops = []
    for _ in range(int(rng.integers(2, 6))):
        r = rng.random()
        if r < 0.2:
            ops.append({"swap": int(rng.integers(n))})
        elif r < 0.35:
            ops.append({"replace": int(rng.integers(n)), "with": gen(rng, pick(rng, *SPACECRAFT))})
        elif r < 0.5:
            k = int(rng.integers(n))
            ops.append({"set": k, "x": gen_state(rng, crafts[k])})
        else:
            m = int(rng.integers(1, n + 1))
            ops.append({"step": sorted(rng.choice(n, m, replace=False).tolist()), "h": min(gen_h(rng, "cwh", 0.05), 60)})
    for op in ops:
        if "step" in op:
            op["u"] = [gen_u(rng, make_ref(crafts[k])) for k in op["step"]]
    if maybe(rng, 0.3):  # two craft meet in place, or in velocity, or in both
        j, k = rng.choice(n, 2, replace=False)
        j, k = int(j), int(k)
        rj, rk = make_ref(crafts[j]), make_ref(crafts[k])
        what = pick(rng, ("pos", ), ("pos", ), ("vel", ), ("pos", "vel"))
        x = arr(crafts[k]["x0"])
        for w in what:
            a, b = list(getattr(rj, w)), list(getattr(rk, w))
            v = np.zeros(3)
            v[:len(a)] = arr(crafts[j]["x0"])[a]
            if len(b) < 3 and v[2]:  # a planar craft cannot meet one out of its plane
                crafts[j]["x0"][a[2]] = 0.0
            x[b] = v[:len(b)]
        crafts[k]["x0"] = x.tolist()
    for k, c in enumerate(extra + crafts):
        if c["kind"] in ("sixdof", "dub2", "dub3") and maybe(rng, 0.5):
            c["with"] = int(rng.integers(8))
    return {"crafts": crafts, "extra": extra, "ops": ops, "ctor": maybe(rng, 0.5), "names": pick(rng, ["plain", "odd"])}


def look(ctx, sim, names, obs_names):
    ents = sim.sim_entities
    P = {k: np.asarray(ents[k].position, float).copy() for k in names}
    V = {k: np.asarray(ents[k].velocity, float).copy() for k in names}
    rp, rv = {}, {}
    for a in obs_names:
        for b in names:
            p, v = np.asarray(ents[a].entity_relative_position(b)), np.asarray(ents[a].entity_relative_velocity(b))
            rp[a, b], rv[a, b] = p.astype(float), v.astype(float)
            tp = 3e-7 * np.maximum(np.abs(P[a]), np.abs(P[b]))
            tv = 3e-7 * np.maximum(np.abs(V[a]), np.abs(V[b]))
            ctx.close(p, P[b] - P[a], tp, "relative position is not the difference of positions", observer=a, other=b)
            ctx.close(v, V[b] - V[a], tv, "relative velocity is not the difference of velocities", observer=a, other=b)
            ctx.obs("relative readings")
            p += 1e3
            v += 1e3  # the reading is the caller's own
    for a in names:
        ctx.close(np.asarray(ents[a].position, float), P[a], 0, "reading a relative position gave access to a craft's position", craft=a)
        ctx.close(np.asarray(ents[a].velocity, float), V[a], 0, "reading a relative velocity gave access to a craft's velocity", craft=a)
    for a in obs_names:
        ctx.check(not np.any(rp[a, a]) and not np.any(rv[a, a]), "a craft is not at rest relative to itself", craft=a)
        for b in obs_names:
            ctx.close(rp[a, b], -rp[b, a], 1e-9, "relative positions are not antisymmetric")
            ctx.close(rv[a, b], -rv[b, a], 1e-9, "relative velocities are not antisymmetric")
            for c in names:
                s = np.maximum(np.maximum(np.abs(P[a]), np.abs(P[b])), np.abs(P[c]))
                ctx.close(rp[a, b] + rp[b, c], rp[a, c], 1e-6 * s, "relative positions do not add up along a chain")
                s = np.maximum(np.maximum(np.abs(V[a]), np.abs(V[b])), np.abs(V[c]))
                ctx.close(rv[a, b] + rv[b, c], rv[a, c], 1e-6 * s, "relative velocities do not add up along a chain")
                ctx.obs("chains")


def registered(ctx, case, sim):
    """A registered lead or partner is the live entity itself, and being registered influences neither's motion."""
    ents = list(sim.sim_entities.values())
    for s, e in zip(case["crafts"] + case["extra"], ents):
        if "with" not in s:
            continue
        lead = s["kind"] == "sixdof"
        other = ents[s["with"] % len(ents)]
        if lead and not isinstance(other, BaseRotationEntity):
            other = ents[0] if isinstance(ents[0], BaseRotationEntity) else e
        ctx.check((e.lead if lead else e.partner) is None, "an entity starts out with a lead or partner")
        twin = build(s, name=e.name)
        twin.state = np.array(e.state)
        keep = np.array(other.state), np.array(e.state)
        (e.register_lead if lead else e.register_partner)(other)
        got = e.lead if lead else e.partner
        ctx.check(got is other, "the registered lead or partner is not the entity given")
        ctx.check(np.array_equal(keep[0], other.state) and np.array_equal(keep[1], e.state), "registering changed a state")
        if other is not e:
            other.state = np.array(other.state) * 1.0
            x0 = np.array(other.state)
            e.step(1.0)
            twin.step(1.0)
            ctx.check(np.array_equal(e.state, twin.state) and np.array_equal(e.state_dot, twin.state_dot), "a registered lead or partner influences the motion")
            ctx.check(np.array_equal(x0, other.state), "stepping moved the registered lead or partner")
            other.step(1.0)
            ctx.check(np.array_equal((e.lead if lead else e.partner).state, other.state), "the registered lead or partner does not follow its entity")
        for last in (next((o for o in ents if o is not other and isinstance(o, BaseRotationEntity)), e), other, e):  # the last one registered counts
            (e.register_lead if lead else e.register_partner)(last)
            ctx.check((e.lead if lead else e.partner) is last, "registering another lead or partner did not replace the former one")
        ctx.obs("registered " + ("leads" if lead else "partners"))


def run(case, ctx):
    odd = case["names"] == "odd"
    sim = Sim({})
    crafts = []
    for k, s in enumerate(case["crafts"]):
        name = f"craft {k}/α" if odd else f"c{k}"
        e = build(s, name="n" + name, **({"sim": sim} if case["ctor"] else {}))
        if not case["ctor"]:
            e.set_sim(sim)
        sim.sim_entities[name] = e  # the simulation's own name for it
        crafts.append((name, e, s))
    for k, s in enumerate(case["extra"]):
        sim.sim_entities[f"x{k}"] = build(s, name=f"x{k}")
    obs_names = [n for n, _, _ in crafts]
    registered(ctx, case, sim)
    names = list(sim.sim_entities)
    look(ctx, sim, names, obs_names)
    for op in case["ops"]:
        if "step" in op:
            for k, u in zip(op["step"], op["u"]):
                e = sim.sim_entities[obs_names[k]]
                u = arr(u)
                e.step(op["h"], u if len(u) == e.control_default.size else None)
        elif "set" in op:
            e = sim.sim_entities[obs_names[op["set"]]]
            if e.state.size == len(op["x"]):
                e.state = arr(op["x"])
        elif "replace" in op:  # another object takes over the name
            e = build(op["with"], name="r", sim=sim)
            sim.sim_entities[obs_names[op["replace"]]] = e
        else:  # one observer moves to a simulation where the same names mean other craft
            k = op["swap"]
            me = sim.sim_entities[obs_names[k]]
            far = {n: build(dict(s, x0=gen_state(np.random.default_rng([k, j]), s)), name=n) for j, (n, _, s) in enumerate(crafts)}
            other = Sim(far)
            me.set_sim(other)
            for n, f in far.items():
                d = np.asarray(f.position, float) - np.asarray(me.position, float)
                ctx.close(me.entity_relative_position(n), d, 3e-7 * (np.abs(f.position) + np.abs(me.position)),
                          "the reading still refers to the previous simulation", other=n)
                d = np.asarray(f.velocity, float) - np.asarray(me.velocity, float)
                ctx.close(me.entity_relative_velocity(n), d, 3e-7 * (np.abs(f.velocity) + np.abs(me.velocity)),
                          "the reading still refers to the previous simulation", other=n)
            me.set_sim(sim)
            ctx.obs("simulation replaced")
        look(ctx, sim, names, obs_names)
    for n in obs_names:
        e = sim.sim_entities[n]
        before = e.state
        for bad in ("nobody", "", n + "x"):
            ctx.raises(lambda e=e, bad=bad: e.entity_relative_position(bad), (KeyError, ValueError), "an unknown entity")
            ctx.raises(lambda e=e, bad=bad: e.entity_relative_velocity(bad), (KeyError, ValueError), "an unknown entity")
        ctx.close(e.state, before, 0, "asking for an unknown entity changed the craft")
    ctx.nontrivial()
