"""C19: readings with units."""
import numpy as np
import pint

from safe_autonomy_dynamics.base_models import BaseUnits

from ..kinds import KINDS, arr, build, gen, gen_h, gen_state, gen_u, make_ref, maybe, pick, state_of
from .unitsin import ANGLE, LENGTH, RATE, SPEED

N = {"quick": 4500, "thorough": 12000}
ACC = {"m/s**2": 1.0, "ft/s**2": 0.3048, "km/hour/s": 1000 / 3600.0, "g_0": 9.80665}
DIMS = {"length": LENGTH, "speed": SPEED, "angle": ANGLE, "rate": RATE, "acc": ACC}
BASE = [("x_with_units", "x", "length"), ("y_with_units", "y", "length"), ("z_with_units", "z", "length"),
        ("position_with_units", "position", "length"), ("velocity_with_units", "velocity", "speed")]
DOTS = [(f"{a}_dot_with_units", f"{a}_dot", "speed") for a in "xyz"]
ROT = [(f"w{a}_with_unit", f"w{a}", "rate") for a in "xyz"] + [("angular_velocity_with_units", "angular_velocity", "rate")]
DUB = [("v_with_units", "v", "speed"), ("acceleration_with_units", "acceleration", "acc")] + [
    (f"{n}_with_units", n, "angle") for n in ("yaw", "pitch", "roll", "heading", "gamma")]
READ = {"cwh": BASE + DOTS, "rot2d": BASE + DOTS + ROT, "sixdof": BASE + DOTS + ROT, "dub2": BASE + DUB, "dub3": BASE + DUB, "int1": BASE,
        "int2": BASE, "int3": BASE}
OWN = {"m": {"length": "meter", "speed": "meter/second", "angle": "radian", "rate": "radian/second", "acc": "meter/second**2"},
       "ft": {"length": "foot", "speed": "foot/second", "angle": "radian", "rate": "radian/second", "acc": "foot/second**2"}}
SYSTEMS = [("kilometer", "hour", "degree"), ("foot", "minute", "radian"), ("meter", "second", "degree"), ("nautical_mile", "hour", "turn")]
FAC = {"m": 1.0, "ft": 0.3048}


def make(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    spec = gen(rng, kind)
    ref = make_ref(spec)
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        if maybe(rng, 0.25):
            ops.append({"x": gen_state(rng, spec)})
        else:
            ops.append({"h": min(gen_h(rng, kind, 0.02), 20), "u": gen_u(rng, ref)})
    return {"spec": spec, "ops": ops, "conv": int(rng.integers(10**6))}


def run(case, ctx):
    spec = case["spec"]
    kind = spec["kind"]
    sysname = "ft" if kind.startswith("dub") else "m"
    e = build(spec)
    n = case["conv"]

    def look():
        nonlocal n
        plain_all = {}
        for rd, plain, dim in READ[kind]:
            p = np.asarray(getattr(e, plain), dtype=float)
            plain_all[plain] = p
            q = getattr(e, rd)
            ctx.close(np.asarray(q.magnitude, dtype=float), p, 0, "a reading with units differs from the plain reading", reading=rd)
            own = OWN[sysname][dim]
            f_own = {"length": FAC[sysname], "speed": FAC[sysname], "acc": FAC[sysname]}.get(dim, 1.0)
            ctx.check(q.units == e.ureg.Unit(own), "a reading has another unit than documented", reading=rd, unit=str(q.units), documented=own)
            others = sorted(DIMS[dim])
            n = (n * 48271 + 11) % 2147483647
            to = others[n % len(others)]
            want = p * f_own / DIMS[dim][to]
            ctx.close(np.asarray(q.to(to).magnitude, dtype=float), want, 1e-6 * np.abs(want), "a reading converted to another unit is wrong", reading=rd, to=to)
            mine = pint.Quantity(1.5, to)
            ctx.close(np.asarray((q + mine).to(to).magnitude, dtype=float), want + 1.5, 1e-6 * (np.abs(want) + 1.5), "a reading does not add up with the application's own quantities",
                      reading=rd, to=to)
            ctx.obs("readings with units")
        # readings are taken of the same state as the plain ones
        x = state_of(e)
        ref = make_ref(spec)
        pos = [x[i] for i in ref.pos]
        ctx.close(np.atleast_1d(np.asarray(e.position_with_units.magnitude, float))[:len(pos)], pos, 1e-9 * np.abs(pos), "position with units is not the state's")
    look()
    # the entity's own unit system, and any other, is made of combinations of its three base units
    for b, (le, ti, an) in ((e.base_units, ({"ft": "foot", "m": "meter"}[sysname], "second", "radian")),
                            (BaseUnits(*SYSTEMS[n % len(SYSTEMS)]), SYSTEMS[n % len(SYSTEMS)])):
        for name, want in (("length", le), ("time", ti), ("angle", an), ("velocity", f"{le}/{ti}"), ("angular_velocity", f"{an}/{ti}"),
                           ("acceleration", f"{le}/{ti}**2"), ("angular_acceleration", f"{an}/{ti}**2")):
            ctx.check(getattr(b, name) == e.ureg.Unit(want), "a unit system's unit is not the documented combination", unit=name, got=str(getattr(b, name)), documented=want)
    for op in case["ops"]:
        if "x" in op:
            e.state = arr(op["x"])
        else:
            e.step(op["h"], arr(op["u"]))
        look()
    ctx.nontrivial()
