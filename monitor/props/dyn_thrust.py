"""C03: direction and effect of thrust and moments on spacecraft with an attitude."""
import numpy as np

from ..kinds import arr, build, gen, gen_h, gen_u, logu, make_ref, maybe, pick, state_of, cw_accel, quat_to_matrix
from ..session import gen_steps, run_session

N = {"quick": 384, "thorough": 8000}


def make(rng, i, tier):
    kind = ("rot2d", "sixdof")[i % 2]
    if i % 4 == 0:
        m = "RK45_JAX" if i % 40 == 0 else ("Euler" if maybe(rng, 0.2) else "RK45")
        spec = gen(rng, kind, method=m)
        return {"oracle": "rot", "spec": spec, "steps": gen_steps(rng, make_ref(spec), kind, int(rng.integers(2, 6)))}
    spec = gen(rng, kind, method="RK45_JAX" if (kind == "rot2d" and i % 40 == 2) else "RK45")
    if maybe(rng, 0.5):  # not rotating
        w = [5] if kind == "rot2d" else [10, 11, 12]
        for k in w:
            spec["x0"][k] = 0.0
        h = round(logu(rng, 0.05, 20), 9)
    else:
        h = round(logu(rng, 1e-3, 0.05), 9)
    ref = make_ref(spec)
    nf = 2 if kind == "rot2d" else 3
    F = [float(f) for f in rng.uniform(ref.umin[:nf], ref.umax[:nf])]
    if maybe(rng, 0.5):
        k = int(rng.integers(nf))
        F = [f if j == k else 0.0 for j, f in enumerate(F)]
    M = [float(v) for v in rng.uniform(ref.umin[nf:], ref.umax[nf:])]
    return {"oracle": "diff", "spec": spec, "h": h, "F": F, "M": M, "prior": gen_steps(rng, ref, kind, int(rng.integers(0, 3)), long_p=0)}


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    kind = spec["kind"]
    if case["oracle"] == "rot":
        comps = [2, 5] if kind == "rot2d" else [7, 8, 9]
        run_session(case, ctx, comps, label="heading and body rate" if kind == "rot2d" else "velocity under thrust")
        return
    h = case["h"]
    jax = spec["method"] == "RK45_JAX"
    nf = len(case["F"])
    pos, vel = list(ref.pos), list(ref.vel)
    att = [2, 5] if kind == "rot2d" else [3, 4, 5, 6, 10, 11, 12]

    def fresh():
        e = build(spec)
        for hh, u in case["prior"]:
            e.step(hh, arr(u))
        return e
    e0 = fresh()
    start = state_of(e0)
    R = e0.orientation.as_matrix()
    if kind == "sixdof":  # the published quaternion drifts off unit length by solver error; thrust scales with it
        ctx.close(quat_to_matrix(start[3:7] / np.linalg.norm(start[3:7])), R, 1e-6, "published orientation is not the published quaternion's")
        R = quat_to_matrix(start[3:7])
    if kind == "sixdof" and not spec["kw"].get("body_frame_thrust", True):
        D = np.eye(3)
        ctx.obs("Hill-frame thrusts")
    else:
        D = R
        ctx.obs("body-frame thrusts")
    F3 = np.zeros(3)
    F3[:nf] = case["F"]
    acc = (D @ F3) / ref.m
    # published input matrix: one column per actuator
    G = np.asarray(e0.dynamics.state_transition_input(e0.state), dtype=float)
    for k in range(nf):
        want = np.zeros(ref.nx)
        want[vel] = (D[:, k] / ref.m)[:len(vel)]
        ctx.close(G[:, k], want, 3e-6 / ref.m, "published thrust direction is not the thruster's axis", thruster=ref.controls[k], attitude=R)
    J = [ref.inertia] if kind == "rot2d" else ref.J
    for k in range(nf, ref.nu):
        want = np.zeros(ref.nx)
        want[ref.nx - (ref.nu - nf) + (k - nf)] = 1 / J[k - nf]
        ctx.close(G[:, k], want, 1e-6 * np.max(np.abs(want)), "published moment effect is not moment over inertia", actuator=ref.controls[k])
    # forced minus free motion
    e1, e2, e3 = fresh(), fresh(), fresh()
    e0.step(h)
    e1.step(h, np.array(case["F"] + [0.0] * (ref.nu - nf)))
    e2.step(h, np.array([0.0] * nf + case["M"]))
    e3.step(h, dict(zip(ref.controls[:nf], case["F"])))
    free, forced, turned, named = map(state_of, (e0, e1, e2, e3))
    n = ref.n
    w = np.linalg.norm(start[5:6] if kind == "rot2d" else start[10:13])
    from scipy.linalg import expm
    A = np.zeros((7, 7))
    A[0:3, 3:6] = np.eye(3)
    for j in range(3):
        A[3:6, j] = cw_accel(n, np.eye(3)[j], np.zeros(3))
        A[3:6, 3 + j] = cw_accel(n, np.zeros(3), np.eye(3)[j])
    A[3:6, 6] = acc
    resp = expm(A * h)[:6, 6]
    a = np.linalg.norm(acc)
    xe = ref.exact(start, np.zeros(ref.nu), h)
    st = ref.tolerance(start, np.zeros(ref.nu), h, xe, spec["method"])
    u1 = np.array(case["F"] + [0.0] * (ref.nu - nf))
    st = st + ref.tolerance(start, u1, h, ref.exact(start, u1, h), spec["method"])
    turn = 0.0 if D is not R else (2 * w * h if w * h < 1 else 2.0)
    tol_v = st[vel] + a * h * (turn + 1e-5) + 1e-6 * np.abs(start[vel])
    tol_p = st[pos] + a * h * h * (turn + 1e-5) + 1e-6 * np.abs(start[pos])
    d = forced - free
    ctx.close(d[vel], resp[3:3 + len(vel)], tol_v, "thrust did not accelerate the craft along its axis by thrust over mass", thrust=case["F"],
              attitude=R, h=h)
    ctx.close(d[pos], resp[:len(pos)], tol_p, "thrust did not displace the craft along its axis", thrust=case["F"], h=h)
    ctx.close(named, forced, 1e-9 * np.abs(forced) + 1e-9, "named thrusters act differently from the thrust vector")
    ang = [0] if kind == "rot2d" else []
    ctx.close(forced[att], free[att], 2 * st[att], "thrust changed the attitude or body rates", angles=ang, thrust=case["F"])
    uM = np.array([0.0] * nf + case["M"])
    sm = st + ref.tolerance(start, uM, h, ref.exact(start, uM, h), spec["method"])
    ctx.close(turned[pos + vel], free[pos + vel], 2 * sm[pos + vel], "moments changed the translation", moments=case["M"])
    if a > 0:
        ctx.obs("thrusts compared")
        ctx.nontrivial()
