"""C08: equivalence of action forms, actuator names, refusals."""
from collections import OrderedDict

import jax.numpy as jnp
import numpy as np

from ..core import Violation
from ..kinds import KINDS, arr, build, gen, gen_custom, gen_h, gen_u, make_ref, maybe, neutral, pick, state_of
from ..session import check_dot, expected_step

N = {"quick": 2700, "thorough": 12000}
FORMS = ("array", "dict", "dict", "subset", "subset", "list", "list", "jax", "none", "f32", "int", "strided", "readonly", "ordered", "values", "intlist",
         "mixedlist", "reversed", "swapped", "subclass")
BAD = ("unknown", "mixed", "tuple", "str", "float", "int", "set", "object", "jaxname", "case", "padded", "prefix")


class Vector(np.ndarray):
    """A user's kind of array."""


def make(rng, i, tier):
    kinds = KINDS + ("custom", "custom")
    kind = kinds[i % len(kinds)]
    if kind == "custom":
        spec = gen_custom(rng, wrap=False, jax=False)
    else:
        spec = gen(rng, kind, method="Euler" if maybe(rng, 0.15) else "RK45")
    ref = make_ref(spec)
    steps = []
    for _ in range(int(rng.integers(3, 8))):
        form = pick(rng, *FORMS)
        if form == "jax" and maybe(rng, 0.5):
            form = "array"
        h = gen_h(rng, spec if kind == "custom" else kind, 0.03)
        st = {"form": form, "h": h, "u": gen_u(rng, ref), "order": [int(v) for v in rng.permutation(ref.nu)], "keep": [maybe(rng, 0.5) for _ in range(ref.nu)]}
        if form == "mixedlist":  # some entries are whole numbers written as such
            st["whole"] = [maybe(rng, 0.5) for _ in range(ref.nu)]
            st["u"] = [float(min(max(round(v), np.ceil(lo)), np.floor(hi))) if w else v
                       for v, w, lo, hi in zip(st["u"], st["whole"], ref.umin, ref.umax)]
        if form in ("int", "intlist"):
            st["u"] = [float(int(v)) for v in rng.integers(-1, 2, ref.nu)]
            st["u"] = np.clip(st["u"], np.ceil(ref.umin), np.floor(ref.umax)).tolist()
        if maybe(rng, 0.3):
            st["bad"] = pick(rng, *BAD)
        steps.append(st)
    return {"spec": spec, "steps": steps}


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    names = list(ref.controls)
    named = spec["kind"] != "custom" or bool(spec.get("names"))
    neu = neutral(spec, ref)
    a, b = build(spec, name="a"), build(spec, name="b")
    for k, st in enumerate(case["steps"]):
        h, u = st["h"], arr(st["u"])
        if st.get("bad"):
            bad(ctx, ref, a, st, names, named, h, spec)
        form = st["form"]
        if form in ("dict", "subset", "ordered", "values") and not named:
            form = "array"
        eff = u.copy()
        loose = 1e-7
        if form == "array":
            action = u.copy()
        elif form == "strided":
            buf = np.full(2 * ref.nu, 1e30)
            buf[::2] = u
            action = buf[::2]
        elif form == "dict":
            action = {names[j]: float(u[j]) for j in st["order"]}
        elif form == "subset":
            action = {names[j]: float(u[j]) for j in st["order"] if st["keep"][j]}
            eff = np.where(st["keep"], u, neu)
        elif form == "ordered":
            action = OrderedDict((names[j], float(u[j])) for j in st["order"])
        elif form == "values":  # numbers of every kind
            kinds = (np.float64, float, np.array, np.float32, lambda v: np.array([v])[0], jnp.float32, lambda v: int(v) if v == int(v) else v)
            action = {names[j]: kinds[(j + k) % len(kinds)](u[j]) for j in st["order"]}
            eff = arr([float(action[n]) for n in names])
        elif form == "readonly":
            action = u.copy()
            action.setflags(write=False)
        elif form == "reversed":
            action = np.ascontiguousarray(u[::-1])[::-1]
        elif form == "swapped":
            action = u.astype(">f8")
        elif form == "subclass":
            action = u.view(Vector)
        elif form == "intlist":
            action = [int(v) for v in u]
        elif form == "mixedlist":
            action = [int(v) if w else v for v, w in zip(u.tolist(), st["whole"])]
            loose = 2e-6
        elif form == "none":
            action, eff = None, neu.copy()
        elif form == "int":
            action = u.astype(int)
        elif form == "f32":
            action = np.float32(u)
            eff = arr(action)
        elif form == "list":
            action = u.tolist() if st["keep"][0] else [np.float64(v) for v in u]
            loose = 2e-6
        else:
            action = jnp.array(u.tolist())
            loose = 2e-5
        given = dict(action) if isinstance(action, dict) else (None if action is None else np.array(action, dtype=float))
        x = state_of(a)
        a.step(h, action)
        b.step(h, eff)
        if given is not None:
            same = (action == given) if isinstance(action, dict) else np.array_equal(np.array(action, dtype=float), given)
            ctx.check(same, "the given action was modified", form=form)
        xa, xb = state_of(a), state_of(b)
        uc = ref.clip_u(eff)
        # the reference's tolerance bounds what tiny control differences do to a saturating, adaptive solution
        sc = ref.scale(x, xb, h, uc)
        tol = loose * sc + 1e-9
        if form in ("list", "jax", "f32", "values", "intlist", "mixedlist") and spec["method"] == "RK45":
            tol = tol + ref.tolerance(x, uc, h, ref.exact(x, uc, h))
        if form in ("list", "jax", "f32", "values", "intlist", "mixedlist"):  # wrapping rounds to the resolution of a full turn
            for i, c in ref.wrap.items():
                tol[i] += 1.5e-6 + 3e-7 * abs(c)
        ctx.close(xa, xb, tol, "equivalent actions led to different states", angles=list(ref.wrap), form=form, step=k, control=u, h=h)
        what = "equivalent actions led to different derivatives"
        if form in ("list", "jax", "f32", "values", "intlist", "mixedlist"):
            saved, ref.f32 = ref.f32, True
            check_dot(ctx, ref, xa, uc, a.state_dot, what, None, spec["method"], form=form)
            ref.f32 = saved
        else:
            ctx.close(np.asarray(a.state_dot, float), np.asarray(b.state_dot, float),
                      1e-6 * (ref.mag(np.clip(x, ref.xmin, ref.xmax), uc) + ref.mag(np.clip(xb, ref.xmin, ref.xmax), uc)) + 1e-7, what,
                      form=form, step=k, control=u, h=h)
        ctx.obs("form " + form)
        if named and form == "subset":
            addressed(ctx, ref, spec, st, x, names, h)
        b.state = a.state
        b.state_dot = np.array(a.state_dot)
        ctx.obs("steps compared")
    ctx.nontrivial()


def addressed(ctx, ref, spec, st, x, names, h):
    """Every name alone does what its documented position in the control vector does, over a short step from x."""
    if spec["kind"] == "custom":
        return
    j = int(st["order"][0])
    v = float(st["u"][j]) or float(ref.umax[j]) * 0.5
    a = build(spec, name="c")
    a.state = x.astype(a.state.dtype) if spec["kind"] != "custom" else x
    x = state_of(a)
    hs = min(h, 0.05)
    a.step(hs, {names[j]: v})
    u = np.zeros(ref.nu)
    u[j] = v
    xe, tol = expected_step(ref, x, u, hs, spec["method"])
    ctx.close(state_of(a), xe, tol, "an actuator name does not drive its documented actuator", angles=list(ref.wrap), actuator=names[j])
    ctx.obs("actuator names checked")


def bad(ctx, ref, e, st, names, named, h, spec):
    kind = st["bad"]
    u = [float(v) for v in st["u"]]
    act = {
        "unknown": {names[0] + "x" if names else "q": 0.5}, "mixed": {**{n: 0.3 for n in names}, "no_such_actuator": 0.1}, "tuple": tuple(u),
        "str": "thrust", "float": 0.5, "int": 1, "set": set(u), "object": object(), "jaxname": {0: 0.5}, "case": {(names[0].upper() if names else "Q"): 0.5},
        "padded": {(names[0] if names else "q") + " ": 0.5}, "prefix": {(names[0] if names else "qq")[:-1]: 0.5}}[kind]
    types = (KeyError, ) if kind in ("unknown", "mixed", "jaxname", "case", "padded", "prefix") else (ValueError, )
    if not named:
        types = (Exception, )
    before, dot = state_of(e), np.array(e.state_dot, dtype=float)
    ctx.raises(lambda: e.step(h, act), types, "invalid action (" + kind + ")", action=repr(act)[:80])
    ctx.check(np.array_equal(before, state_of(e)) and np.array_equal(dot, np.array(e.state_dot, dtype=float)),
              "a refused action changed the entity", action=repr(act)[:80])
    ctx.obs("refusals")
