"""C18: initial conditions in any unit."""
import math

import numpy as np
import pint

from safe_autonomy_dynamics.base_models import build_unit_conversion_validator_fn

from ..kinds import CLS, INIT_NAMES, KINDS, gen, maybe, pick, logu, state_of

N = {"quick": 8000, "thorough": 20000}
WATCHDOG = 60

LENGTH = {"meter": 1.0, "m": 1.0, "km": 1000.0, "cm": 0.01, "mm": 0.001, "ft": 0.3048, "feet": 0.3048, "inch": 0.0254, "mile": 1609.344,
          "nautical_mile": 1852.0, "yard": 0.9144}
TIME = {"s": 1.0, "second": 1.0, "minute": 60.0, "hour": 3600.0, "ms": 1e-3}
ANGLE = {"radian": 1.0, "rad": 1.0, "degree": math.pi / 180, "deg": math.pi / 180, "turn": 2 * math.pi, "milliradian": 1e-3,
         "arcminute": math.pi / 10800}


def speeds():
    d = {f"{a}/{t}": LENGTH[a] / TIME[t] for a in LENGTH for t in TIME}
    d["knot"] = 1852.0 / 3600.0
    return d


SPEED = speeds()
RATE = {f"{a}/{t}": ANGLE[a] / TIME[t] for a in ANGLE for t in TIME}
TABLE = {"length": LENGTH, "speed": SPEED, "angle": ANGLE, "rate": RATE}
WRONG = {"length": ("second", "m/s", "kg", "m**2", "deg", "K"), "speed": ("m", "s", "m/s**2", "N", "ft*s", "kg"),
         "angle": ("m", "s", "m/s", "kg", "rad/s", "ft"), "rate": ("m/s", "m", "s", "rad/s**2", "rad", "kg/s")}

OTHER = pint.UnitRegistry()  # a user's own registry, with a unit only it knows
SMOOT = 1.7018
OTHER.define("smoot = 1.7018 meter")


def catalogue(kind):
    """(name, dimension, base factor, default) per initial condition, from the documentation."""
    ft = kind.startswith("dub")
    L, V = (0.3048 if ft else 1.0), (0.3048 if ft else 1.0)
    out = []
    for n in INIT_NAMES[kind]:
        if n in ("x", "y", "z"):
            out.append((n, "length", L, 0.0))
        elif n in ("x_dot", "y_dot", "z_dot"):
            out.append((n, "speed", V, 0.0))
        elif n == "v":
            out.append((n, "speed", V, 200.0))
        elif n in ("theta", "heading", "gamma", "roll"):
            out.append((n, "angle", 1.0, 0.0))
        elif n in ("wx", "wy", "wz"):
            out.append((n, "rate", 1.0, 0.0))
        else:
            out.append((n, None, 1.0, 0.0))
    if kind.startswith("int"):
        out = [(n, None, 1.0, 0.0) for n, *_ in out]
    return out


def make(rng, i, tier):
    kinds = KINDS + ("sun", )
    kind = kinds[i % len(kinds)]
    cat = catalogue(kind)
    conds = {}
    for n, dim, _b, _d in cat:
        r = rng.random()
        if r < 0.3:
            continue
        v = float(pick(rng, -1, 1) * logu(rng, 1e-3, 1e4)) if maybe(rng, 0.8) else float(int(rng.integers(-50, 50)))
        if maybe(rng, 0.06):
            v = 0.0
        if dim and r < 0.85:
            conds[n] = {"v": v, "unit": pick(rng, *sorted(TABLE[dim])), "form": pick(rng, "float", "float", "int", "np", "ureg", "other")}
            if dim == "length" and maybe(rng, 0.05):
                conds[n].update(unit="smoot", form="other")
        else:
            conds[n] = {"v": v, "form": pick(rng, "float", "float", "int", "np", "np32")}
    if kind == "sixdof":
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
        if maybe(rng, 0.7):
            for n, v in zip(("q1", "q2", "q3", "q4"), q):
                conds[n] = {"v": float(v), "form": "float"}
        else:
            for n in ("q1", "q2", "q3", "q4"):
                conds.pop(n, None)
    k = int(rng.integers(len(cat)))
    bad = pick(rng, "dim", "dim", "dim", "dim", "text", "none", "list", "unknown", "noname", "qtext")
    return {"kind": kind, "conds": conds, "bad": bad, "cond": cat[k][0], "bv": pick(rng, 5.0, 0.0, 0, -1.0, logu(rng, 1e-6, 1e6)), "pick": int(rng.integers(1000)), "kw": gen(rng, kind, init=False)["kw"] if maybe(rng, 0.3) else {},
            "unit": pick(rng, *sorted(TABLE[pick(rng, "length", "speed", "angle", "rate")]))}


def value(c):
    v = c["v"]
    f = c["form"]
    num = {"float": v, "int": int(round(v)) if abs(v) >= 1 else v, "np": np.float64(v), "np32": np.float32(v), "ureg": v, "other": v}[f]
    if "unit" in c:
        if f == "other":
            return OTHER.Quantity(num, c["unit"])
        if f == "ureg":
            return pint.get_application_registry().Quantity(num, c["unit"])
        return pint.Quantity(num, c["unit"])
    return num


def number(c):
    v = c["v"]
    return float(int(round(v))) if (c["form"] == "int" and abs(v) >= 1) else (float(np.float32(v)) if c["form"] == "np32" else v)


def run(case, ctx):
    kind = case["kind"]
    cat = catalogue(kind)
    from ..kinds import entity_kwargs
    kw = entity_kwargs({"kind": kind, "kw": case["kw"], "method": "RK45"})
    given = {n: value(c) for n, c in case["conds"].items()}
    e = CLS[kind](name="craft", **kw, **given)
    ctx.check(e.name == "craft", "the entity's name is not the given one", name=e.name)
    want = []
    for n, dim, base, default in cat:
        if n in case["conds"]:
            c = case["conds"][n]
            f = TABLE[dim].get(c["unit"], SMOOT) / base if "unit" in c else 1.0
            want.append(number(c) * f)
            ctx.obs("conditions with units" if "unit" in c else "plain conditions")
        else:
            want.append(default)
            ctx.obs("defaults")
    if kind == "sixdof" and not any(want[3:7]):
        want[6] = 1.0
    want = np.array(want)
    ctx.close(state_of(e), want, 2e-6 * np.abs(want) + 1e-30, "an initial condition does not mean the same in another unit", conditions=case["conds"], names=INIT_NAMES[kind])
    # direct conversion function
    dim = next(d for d in TABLE if case["unit"] in TABLE[d])
    others = sorted(TABLE[dim])
    to = others[case["pick"] % len(others)]
    fn = build_unit_conversion_validator_fn(to)
    v = 1.0 + case["pick"] / 7
    ctx.close(fn(pint.Quantity(v, case["unit"])), v * TABLE[dim][case["unit"]] / TABLE[dim][to], 1e-9 * v * TABLE[dim][case["unit"]] / TABLE[dim][to],
              "unit conversion is wrong", frm=case["unit"], to=to)
    ctx.close(fn(v), v, 0, "a plain number is converted")
    # refusals
    n, dim, _b, _d = next(c for c in cat if c[0] == case["cond"])
    b = case["bad"]
    base = {k: value(c) for k, c in case["conds"].items() if k != n}
    name = {"name": "craft"}
    if b == "dim" or b == "qtext":
        if dim is None:
            return ctx.nontrivial()
        bad = {n: (OTHER if case["pick"] % 3 == 0 else pint).Quantity(case.get("bv", 5.0), WRONG[dim][case["pick"] % len(WRONG[dim])])}
    elif b == "text":
        bad = {n: "fast"}
    elif b == "none":
        bad = {n: None}
    elif b == "list":
        bad = {n: [1.0, 2.0]}
    elif b == "unknown":
        bad = {("x_position", "q5", "velocity", "vx", "w")[case["pick"] % 5]: 1.0}
    else:
        bad, name = {}, {}
    ctx.raises(lambda: CLS[kind](**name, **kw, **base, **bad), (ValueError, TypeError), "an invalid initial condition (" + b + ")", condition=repr(bad)[:100])
    ctx.obs("refused conditions")
    ctx.nontrivial()
