"""C20: consistency of readings."""
import numpy as np
from scipy.spatial.transform import Rotation

from ..kinds import KINDS, arr, build, gen, gen_h, gen_state, gen_u, make_ref, maybe, pick, logu, state_of

N = {"quick": 3900, "thorough": 16000}
SETTERS = {"dub2": ("x", "y", "heading", "v"), "dub3": ("x", "y", "z", "heading", "gamma", "roll", "v")}


def Rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def Ry(a):
    return np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])


def Rx(a):
    return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])


def qmat(q):
    x, y, z, w = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def make(rng, i, tier):
    kind = (KINDS + ("dub2", "dub3"))[i % 10]
    m = "RK45_JAX" if (kind == "rot2d" and i % 100 == 1) else pick(rng, "RK45", "RK45", "Euler")
    spec = gen(rng, kind, method=m)
    ref = make_ref(spec)
    ops = []
    for _ in range(int(rng.integers(2, 7))):
        r = rng.random()
        if r < 0.2:
            ops.append({"x": gen_state(rng, spec)})
            if kind in SETTERS and maybe(rng, 0.4):  # a state of whole numbers, given as integers
                ops[-1]["whole"] = True
                ops[-1]["x"] = [float(np.clip(np.rint(v), -1, 1)) if n in ("gamma", "roll") else float(np.rint(v)) for n, v in zip(SETTERS[kind], ops[-1]["x"])]
        elif r < 0.5 and kind in SETTERS:
            n = pick(rng, *SETTERS[kind])
            x = gen_state(rng, spec)
            v = x[SETTERS[kind].index(n)] if not (n == "v" and maybe(rng, 0.2)) else 0.0
            if n != "v" and maybe(rng, 0.25):  # far beyond what the craft flies at; a setter judges nothing
                v = float(rng.uniform(-20, 20)) if n in ("heading", "gamma", "roll") else float(rng.uniform(-1, 1)) * logu(rng, 1e3, 1e7)
            ops.append({"set": n, "v": v})
        else:
            ops.append({"h": min(gen_h(rng, kind, 0.05), 20), "u": gen_u(rng, ref)})
    beyond = arr(gen_state(rng, spec))  # faster, farther and spinning quicker than the craft may; a reading judges nothing
    for k, n in enumerate(ref.states):
        if n not in ("q1", "q2", "q3", "q4", "heading", "theta", "gamma", "roll"):
            beyond[k] = (beyond[k] or rng.normal()) * logu(rng, 1, 1e3)
    return {"spec": spec, "ops": ops, "beyond": beyond.tolist()}


def look(ctx, e, spec, ref, stepped):
    kind = spec["kind"]
    x = state_of(e)
    f = lambda n: np.asarray(getattr(e, n), dtype=float)  # noqa: E731
    R = e.orientation.as_matrix()
    sc = 1e-6
    def eq(actual, want, what, tol=None, **d):
        want = np.asarray(want, float)
        ctx.close(actual, want, sc * np.abs(want) + 1e-12 if tol is None else tol, what, **d)
    if kind in ("dub2", "dub3"):
        if kind == "dub2":
            px, py, psi, v = x
            pz, gam, phi = 0.0, 0.0, 0.0
            iv = 3
        else:
            px, py, pz, psi, gam, phi, v = x
            iv = 6
        for n, want in (("x", px), ("y", py), ("z", pz), ("heading", psi), ("yaw", psi), ("gamma", gam), ("pitch", gam), ("roll", phi), ("v", v)):
            eq(f(n), want, "a component reading is not the state's", reading=n)
        eq(f("position"), [px, py, pz], "position is not the state's")
        eq(R, Rz(psi) @ Ry(gam) @ Rx(phi), "orientation is not the yaw, pitch and roll reported", tol=2e-6)
        nose = np.array([np.cos(psi) * np.cos(gam), np.sin(psi) * np.cos(gam), -np.sin(gam)])
        eq(e.orientation.apply([1, 0, 0]), nose, "the body x axis does not point along the flight path", tol=2e-6)
        eq(f("velocity"), v * nose, "velocity is not speed along the flight path", tol=3e-6 * abs(v) + 1e-9)
        eq(f("acceleration"), np.asarray(e.state_dot, float)[iv] * nose, "acceleration is not the rate of change of speed along the flight path",
           tol=3e-6 * abs(float(e.state_dot[iv])) + 1e-9)
        if stepped:
            sd = np.asarray(e.state_dot, float)
            n = 2 if kind == "dub2" else 3
            eq(sd[:n], f("velocity")[:n], "velocity is not the time derivative of position", tol=1e-5 * abs(v) + 1e-6)
        ctx.obs("aircraft readings")
        return
    n = len(ref.pos)
    pos, vel = np.zeros(3), np.zeros(3)
    pos[:n], vel[:n] = x[list(ref.pos)], x[list(ref.vel)]
    d = n if kind.startswith("int") else 3
    eq(np.atleast_1d(f("position")), pos[:d], "position is not the state's")
    eq(np.atleast_1d(f("velocity")), vel[:d], "velocity is not the state's")
    for k, a in enumerate("xyz"):
        eq(f(a), pos[k], "a component reading is not the state's", reading=a)
        eq(f(a + "_dot"), vel[k], "a component reading is not the state's", reading=a + "_dot")
    if stepped:
        sd = np.asarray(e.state_dot, float)
        eq(sd[list(ref.pos)], vel[:n], "velocity is not the time derivative of position", tol=1e-5 * np.max(np.abs(vel)) + 1e-7)
    if kind == "cwh" or kind.startswith("int"):
        eq(R, np.eye(3), "a point mass does not report the identity orientation", tol=0)
        ctx.obs("point-mass readings")
        return
    q = f("quaternion")
    w = f("angular_velocity")
    if kind == "rot2d":
        eq(f("theta"), x[2], "a component reading is not the state's", reading="theta")
        eq(R, Rz(x[2]), "orientation is not a turn by the heading angle", tol=2e-6)
        eq(w, [0, 0, x[5]], "angular velocity is not the state's")
    else:
        eq(R, qmat(x[3:7]), "orientation is not the state's attitude", tol=2e-6)
        eq(w, x[10:13], "angular velocity is not the state's")
        for k, nme in enumerate(("q1", "q2", "q3", "q4")):
            eq(f(nme), x[3 + k], "a component reading is not the state's", reading=nme)
    eq(np.linalg.norm(q), 1.0, "the quaternion is not unit", tol=1e-6)
    eq(qmat(q), R, "the quaternion does not describe the orientation", tol=2e-6)
    eq(Rotation.from_quat(q).as_matrix(), R, "the quaternion does not describe the orientation", tol=2e-6)
    qs = np.array([float(f(m)) for m in ("q1", "q2", "q3", "q4")])
    eq(qs / np.linalg.norm(qs), q, "quaternion components do not match the quaternion", tol=2e-6)
    for k, nme in enumerate(("wx", "wy", "wz")):
        eq(f(nme), w[k], "angular velocity components do not match the vector", reading=nme)
    ctx.obs("spacecraft readings")


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    e = build(spec)
    look(ctx, e, spec, ref, False)
    if hasattr(e, "acceleration"):
        ctx.check(not np.any(e.acceleration), "acceleration before the first step is not zero")
    for op in case["ops"]:
        if "x" in op:
            e.state = arr(op["x"]).astype(int) if op.get("whole") else arr(op["x"])
            ctx.close(state_of(e), arr(op["x"]), 0, "the state read is not the state set")
            look(ctx, e, spec, ref, False)
        elif "set" in op:
            before = state_of(e)
            setattr(e, op["set"], op["v"])
            want = before.copy()
            want[SETTERS[spec["kind"]].index(op["set"])] = op["v"]
            ctx.close(state_of(e), want, 1e-6 * np.abs(want), "setting a component set something else", component=op["set"])
            look(ctx, e, spec, ref, False)
            ctx.obs("components set")
            if op["set"] in ("gamma", "roll") and not -1.4 < op["v"] < 1.4:
                setattr(e, op["set"], 0.1)
            if e.v == 0:
                e.v = ref.xmin[-1]
        else:
            e.step(op["h"], arr(op["u"]))
            look(ctx, e, spec, ref, True)
    # velocity against the motion itself
    p0 = np.atleast_1d(np.asarray(e.position, float)).copy()
    e.step(1e-3)
    v1 = np.atleast_1d(np.asarray(e.velocity, float))
    p1 = np.atleast_1d(np.asarray(e.position, float))
    if spec["method"] != "RK45_JAX":
        a = ref.mag(np.clip(state_of(e), ref.xmin, ref.xmax), np.zeros(ref.nu))
        ctx.close((p1 - p0) / 1e-3, v1, 2e-3 * np.max(np.abs(a)) + 1e-12 * np.max(np.abs(p0)) / 1e-3 + (0 if p0.dtype == np.float64 else 1) + 1e-6 +
                  1e-3 * np.max(np.abs(v1)), "position does not move with the reported velocity")
    e.state = arr(case["beyond"])
    look(ctx, e, spec, ref, False)
    ctx.obs("readings beyond the limits")
    ctx.nontrivial()
