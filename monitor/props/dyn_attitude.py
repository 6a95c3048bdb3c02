"""C02: six-degree-of-freedom attitude dynamics."""
import numpy as np
from scipy.spatial.transform import Rotation

from ..kinds import arr, build, gen, gen_h, gen_u, make_ref, maybe, pick, rquat, state_of, logu
from ..session import gen_steps, run_session

N = {"quick": 408, "thorough": 6000}


def make(rng, i, tier):
    o = ("step", "free", "step", "spin", "step", "default")[i % 6]
    spec = gen(rng, "sixdof", method="Euler" if (o == "step" and maybe(rng, 0.12)) else "RK45", default_p=0.15)
    if o != "default" and maybe(rng, 0.7) and "inertia" in spec["kw"]:
        # let gyroscopic terms matter: fast rates allowed, strong wheels
        spec["kw"].update(ang_vel_limit=round(logu(rng, 0.3, 3.0), 6), limform="scalar", ang_acc_limit=round(logu(rng, 0.05, 2), 6),
                          inertia_wheel=0.01, acc_limit_wheel=1000.0, vel_limit_wheel=5000.0)
    from ..kinds import gen_state
    spec["x0"] = gen_state(rng, spec)
    ref = make_ref(spec)
    wmax = max(float(np.max(ref.velmax)), 1e-2)
    if o == "step":
        return {"oracle": o, "spec": spec, "steps": gen_steps(rng, ref, "sixdof", int(rng.integers(2, 6)), long_p=0.05, hmax=6 / wmax)}
    if o == "free":
        # well inside the rate limits so that no axis saturates: |w| bounded by sqrt(2T/Jmin)
        J = ref.J
        w = rng.uniform(-1, 1, 3)
        w *= rng.uniform(0.2, 0.9) * np.min(ref.velmax) / (np.linalg.norm(w) * np.sqrt(np.max(J) / np.min(J)))
        spec["x0"][10:13] = w.tolist()
        h = round(float(rng.uniform(0.05, 0.4) / max(np.linalg.norm(w), 1e-3)), 9)
        return {"oracle": o, "spec": spec, "h": h, "k": int(rng.integers(10, 40))}
    if o == "spin":
        ax = np.zeros(3)
        if maybe(rng, 0.5):  # principal-axis spin
            k = int(rng.integers(3))
            ax[k] = pick(rng, 1, -1) * ref.velmax[k] * rng.uniform(0.05, 0.99)
        else:
            spec["kw"]["inertia"] = [0.1, 0.1, 0.1]
            spec["kw"].setdefault("matrix", "array")
            ref = make_ref(spec)
            ax = rng.uniform(-0.95, 0.95, 3) * ref.velmax
        spec["x0"][10:13] = ax.tolist()
        return {"oracle": o, "spec": spec, "h": round(float(rng.uniform(0.1, 3.0) / max(np.linalg.norm(ax), 1e-3)), 9)}
    spec.pop("x0")
    return {"oracle": "default", "spec": spec, "h": round(logu(rng, 0.1, 5), 6), "u": gen_u(rng, ref)}


def run(case, ctx):
    spec, o = case["spec"], case["oracle"]
    ref = make_ref(spec)
    att = [3, 4, 5, 6, 10, 11, 12]
    if o == "step":
        def unit(e, ref, x, uc, h, x1, k):
            n0, n1 = np.linalg.norm(x[3:7]), np.linalg.norm(x1[3:7])
            if spec["method"] == "Euler":
                return
            nr = np.linalg.norm(ref.rk45(x, uc, h)[3:7])
            tol = 10 * abs(nr - n0) + 2e-6
            if ref.saturating(x, uc, h):
                tol += 2 * np.max(ref.tolerance(x, uc, h, ref.exact(x, uc, h))[3:7])
            ctx.close(n1, n0, tol, "attitude quaternion lost unit length over a step", step=k, h=h)
            ctx.obs("unit-norm checks")
        run_session(case, ctx, att, label="attitude", every=unit)
        return
    if o == "free":
        e = build(spec)
        x = state_of(e)
        xr = x.copy()
        zero = np.zeros(6)
        J = ref.J

        def inv(s):
            w = s[10:13]
            R = Rotation.from_quat(s[3:7]).as_matrix()
            return 0.5 * w @ (J * w), R @ (J * w)
        T0, H0 = inv(x)
        for k in range(case["k"]):
            e.step(case["h"])
            xr = ref.rk45(xr, zero, case["h"])
            Tr, Hr = inv(xr)
            T, H = inv(state_of(e))
            ctx.close(T, T0, 10 * abs(Tr - T0) + 1e-5 * T0 * (1 + 0.02 * k), "kinetic energy not conserved without moments", step=k, h=case["h"])
            ctx.close(H, H0, 10 * np.max(np.abs(Hr - H0)) + 1e-5 * np.linalg.norm(H0) * (1 + 0.02 * k),
                      "angular momentum not conserved without moments", step=k, h=case["h"])
            ctx.obs("conservation checks")
        ctx.nontrivial()
        return
    if o == "spin":
        e = build(spec)
        x = state_of(e)
        w, h = x[10:13], case["h"]
        e.step(h)
        x1 = state_of(e)
        want = (Rotation.from_quat(x[3:7]) * Rotation.from_rotvec(w * h)).as_matrix()
        xe = ref.exact(x, np.zeros(6), h)
        tol = np.max(ref.tolerance(x, np.zeros(6), h, xe)[3:7]) * 4 + 1e-5
        ctx.close(e.orientation.as_matrix(), want, tol, "attitude did not turn by the body rates", h=h, rates=w)
        ctx.close(x1[10:13], w, 1e-6 * np.abs(w) + 1e-7, "uniform spin changed the body rates", h=h)
        ctx.obs("spins checked")
        ctx.nontrivial()
        return
    e = build(spec)
    ctx.close(e.orientation.as_matrix(), np.eye(3), 1e-7, "a spacecraft given no attitude does not start at the identity attitude")
    ctx.close(np.linalg.norm(e.quaternion), 1.0, 1e-7, "a spacecraft given no attitude has no unit quaternion")
    spec2 = dict(spec, x0=[0.0] * 6 + [1.0] + [0.0] * 6)
    e2 = build(spec2)
    e.step(case["h"], arr(case["u"]))
    e2.step(case["h"], arr(case["u"]))
    ctx.close(state_of(e), state_of(e2), 1e-9, "a spacecraft given no attitude moves differently from one given the identity attitude")
    ctx.obs("default attitudes")
    ctx.nontrivial()
