"""C27: F-16 low-level controller."""
import math

import numpy as np
from scipy.integrate import solve_ivp

from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController

from .. import f16ref as F
from ..kinds import arr, maybe, pick

N = {"quick": 9000, "thorough": 60000}

XEQ = np.array([502.0, 0.0389, 0, 0, 0.0389, 0, 0, 0, 0, 0, 0, 1000.0, 9.0567])
UEQ = np.array([0.1395, -0.7496, 0.0, 0.0])
FEED = [1, 7, 13, 2, 6, 8, 14, 15]  # alpha q int_Nz | beta p r int_ps int_Ny
K_LONG = [-156.8801506723475, -31.037008068526642, -38.72983346216317]
K_AIL = [37.84483, -25.40956, -6.82876, -332.88343, -17.15997]
K_RDR = [-23.91233, 5.69968, -21.63431, 64.49490, -88.36203]
LO = np.array([0.0, -25.0, -21.5, -30.0])
HI = np.array([1.0, 25.0, 21.5, 30.0])
SETTLE_EVERY = {"quick": 200, "thorough": 80}


GAINS = np.zeros((3, 8))
GAINS[0, :3], GAINS[1, 3:], GAINS[2, 3:] = K_LONG, K_AIL, K_RDR


def law(x, u_ref, xeq=XEQ, ueq=UEQ, gains=GAINS):
    """Unsaturated control and the deviations fed back."""
    d = np.array(x, float)
    d[:13] -= xeq
    f = d[FEED]
    u = ueq.copy()
    u[0] += u_ref[3]
    u[1:] -= gains @ f
    return u, f, np.concatenate([[1 + abs(u_ref[3])], 1 + np.abs(gains) @ np.abs(f)])


NAMES = ("Throttle{}", "Elevator{}Deg", "Aileron{}Deg", "Rudder{}Deg")


def tune(llc, t):
    """Configure a controller; returns (trim state, trim control, gains, lower, upper) now in force."""
    xeq, ueq, gains, lo, hi = XEQ.copy(), UEQ.copy(), GAINS.copy(), LO.copy(), HI.copy()
    put = t.get("how") == "replace"
    for k, (a, b) in enumerate(t.get("limits", [])):
        lo[k], hi[k] = a, b
        setattr(llc.ctrlLimits, NAMES[k].format("Min"), a)
        setattr(llc.ctrlLimits, NAMES[k].format("Max"), b)
    if "trim_x" in t:
        xeq, ueq = xeq + t["trim_x"], ueq + t["trim_u"]
        if put:
            llc.xequil, llc.uequil = xeq.copy(), ueq.copy()
        else:
            llc.xequil += arr(t["trim_x"])
            llc.uequil += arr(t["trim_u"])
    if "gain" in t:
        gains = gains * arr(t["gain"])
        if put:
            llc.K_lqr = gains.copy()
        else:
            llc.K_lqr *= arr(t["gain"])
    return xeq, ueq, gains, lo, hi


def make(rng, i, tier):
    model, v2 = ("stevens", "morelli")[i % 2], maybe(rng, 0.4)
    if i % SETTLE_EVERY[tier] < 8:  # spread over the workers
        if i % SETTLE_EVERY[tier] % 4:
            v2 = False
        pert = rng.uniform(-1, 1, 16) * np.array([20, .03, .02, .1, .05, 1, .1, .05, .05, 1e3, 1e3, 3000, 5, .1, .1, .05])
        pert[11] = abs(pert[11]) if pert[11] < -900 else pert[11]
        return {"do": "settle", "model": model, "v2": v2, "pert": pert.tolist()}
    near = pick(rng, "near", "far", "envelope", "extreme")
    if near == "near":
        x = np.concatenate([XEQ, np.zeros(3)]) + rng.uniform(-1, 1, 16) * np.array([50, .08, .03, .5, .2, 3, .1, .1, .05, 1e4, 1e4, 900, 5, .2, .2, .1])
    else:
        x = np.array(F.gen_f16_state(rng) + rng.uniform(-1, 1, 3).tolist())
        if near == "extreme":
            x[13:] *= pick(rng, 10.0, 1e3)
        elif near == "far":
            x[1], x[2] = rng.uniform(-.1, .3), rng.uniform(-.1, .1)
            x[6:9] *= 0.2
    u_ref = rng.uniform(-1, 1, 4) * np.array([5, 2, .5, 1.2])
    if maybe(rng, 0.2):
        u_ref[:3] = 0
    c = {"do": "law", "model": model, "v2": v2, "x": x.tolist(), "u_ref": u_ref.tolist(), "default": maybe(rng, 0.3), "whole": maybe(rng, 0.1)}
    if maybe(rng, 0.25):  # a controller the user has configured
        t = {}
        if maybe(rng, 0.8):
            lim = [[float(v) for v in sorted(rng.uniform(lo, hi, 2) * pick(rng, 1.0, 0.3))] for lo, hi in zip(LO, HI)]
            for p in lim:
                if maybe(rng, 0.15):
                    j = int(rng.integers(2))
                    p[j] = pick(rng, 0, 0.0) if p[1 - j] * (2 * j - 1) <= 0 else p[j]
            t["limits"] = [list(p) if maybe(rng, 0.7) else [float(a), float(b)] for p, a, b in zip(lim, LO, HI)]
        if maybe(rng, 0.3):
            t["trim_x"] = (rng.uniform(-1, 1, 13) * np.array([50, .05, .02, .1, .1, .1, 0, .1, 0, 100, 100, 2000, 5])).tolist()
            t["trim_u"] = (rng.uniform(-1, 1, 4) * np.array([.1, 1, 1, 1])).tolist()
        if maybe(rng, 0.3):
            t["gain"] = rng.uniform(0.3, 1.5, (3, 8)).tolist()
        t["how"] = pick(rng, "replace", "inplace", "inplace")
        c["tuned"] = t
    return c


def closed(x, u_ref, llc, model, v2, default=False):
    if default and model == "morelli" and not v2:
        out = controlled_f16(x, u_ref, llc)
    else:
        out = controlled_f16(x, u_ref, llc, f16_model=model, v2_integrators=v2)
    xd, u, nz, ps, ny = out
    return np.asarray(xd, float), np.asarray(u, float), float(nz), float(ps), float(ny)


def one(case, ctx):
    llc = LowLevelController()
    x, u_ref = arr(case["x"]), arr(case["u_ref"])
    x0, r0 = x.copy(), u_ref.copy()
    other = LowLevelController()
    xeq, ueq, gains, lo, hi = tune(llc, case.get("tuned") or {})
    if case.get("tuned"):
        for o in (other, LowLevelController()):
            ctx.check(np.array_equal(o.xequil, XEQ) and np.array_equal(o.uequil, UEQ) and np.array_equal(o.K_lqr, GAINS), "configuring one controller changed another")
            ctx.check(all(getattr(o.ctrlLimits, NAMES[k].format("Min")) == LO[k] and getattr(o.ctrlLimits, NAMES[k].format("Max")) == HI[k] for k in range(4)),
                      "configuring one controller's limits changed another's")
        ctx.obs("configured controllers")
    raw, f, mag = law(x, u_ref, xeq, ueq, gains)
    want = np.clip(raw, lo, hi)
    xc, u = llc.get_u_deg(u_ref, x)
    xc, u = np.asarray(xc, float), np.asarray(u, float)
    ctx.check(u.shape == (4, ) and np.all(u >= lo) and np.all(u <= hi), "a commanded control lies outside its actuator's limits", u=u)
    ctx.close(u, want, 1e-11 * mag, "commanded controls are not saturated trim plus feedback", x=x, u_ref=u_ref)
    ctx.close(xc, f, 1e-12 * (1 + np.abs(f)), "the reported feedback deviations are not those from trim")
    ctx.check(np.array_equal(x, x0) and np.array_equal(u_ref, r0), "the controller modified its state or reference")
    for k in range(4):
        ctx.obs("saturated" if raw[k] != want[k] else "unsaturated")
    ctx.check(llc.get_num_integrators() == 3, "the controller's number of integrators is wrong")

    model, v2 = case["model"], case["v2"]
    xd, ur, nz, ps, ny_r = closed(x, u_ref, llc, model, v2, case["default"])
    ctx.check(np.array_equal(x, x0) and np.array_equal(u_ref, r0), "the closed loop modified its state or reference")
    ref = F.derivative(x[:13], u, model, True)
    sc = ref["scale"]
    if min(abs(F.tgear(u[0]) - 50), abs(x[12] - 50)) < 1e-9 and x[12] != 50.0:
        sc = sc.copy()
        sc[12] = np.inf
    ctx.check(xd.shape == (16, ), "the closed-loop derivative has the wrong size")
    tol = 3e-6 * sc + 1e-9
    ctx.close(xd[:13], ref["xd"], tol, "the closed-loop derivative is not the airframe's under the commanded controls", x=x, u=u, model=model)
    ctx.close(ur[:4], [u[0], *np.deg2rad(u[1:])], 1e-13, "the reported controls are not the commanded ones")
    ctx.close(ur[4:], u_ref[:3], 0, "the reported references are not the given ones")
    ntol = 5e-6 * ref["fs"] / F.G
    ctx.close(nz, ref["Nz"], ntol, "the regulated load factor is not the airframe's")
    if v2:
        wps = xd[6] * math.cos(xd[1]) + xd[8] * math.sin(xd[1])
        wny = ref["Ny"] + xd[8]
        ctx.close(ps, wps, 1e-9 * (1 + abs(xd[6]) + abs(xd[8])), "the regulated roll rate is wrong")
        ctx.close(ny_r, wny, ntol + 1e-9 * (1 + abs(xd[8])), "the regulated side force is wrong")
    else:
        wps = x[6] * math.cos(x[1] - xeq[1]) + x[8] * math.sin(x[1] - xeq[1])
        ctx.close(ps, wps, 1e-11, "the regulated roll rate is wrong")
        ctx.close(ny_r, ref["Ny"] + x[8], ntol + 1e-9, "the regulated side force is wrong")
    ctx.close(xd[13:], [nz - u_ref[0], ps - u_ref[1], ny_r - u_ref[2]], 1e-9 * (1 + abs(nz) + abs(ps) + abs(ny_r)), "an error integrator does not grow by output minus reference",
              u_ref=u_ref, v2=v2)
    if case.get("whole"):
        w, wr = np.rint(x), np.rint(u_ref)
        w[[1, 2, 4]] = 0
        wi, wri = w.astype(int), wr.astype(int)
        ctx.close(llc.get_u_deg(wri, wi)[1], llc.get_u_deg(wr, w)[1], 1e-9 * mag, "whole numbers given as integers are controlled otherwise", x=w, u_ref=wr)
        ctx.close(closed(wi, wri, llc, model, v2)[0], closed(w, wr, llc, model, v2)[0], 1e-9 * (1 + sc.max()), "whole numbers given as integers have another closed-loop derivative", x=w, u_ref=wr) \
            if np.all(np.isfinite(sc)) else None
        ctx.check(np.array_equal(wi, w) and np.array_equal(wri, wr), "the closed loop modified its state or reference")
        ctx.obs("integer states")
    # the same controller used again gives the same answer
    again = closed(x, u_ref, llc, model, v2)
    ctx.close(again[0], xd, 0, "the closed loop depends on previous calls")
    ctx.obs("closed-loop derivatives")
    ctx.nontrivial()


def settle(case, ctx):
    llc = LowLevelController()
    x0 = np.concatenate([XEQ, np.zeros(3)]) + arr(case["pert"])
    u_ref = np.zeros(4)
    model, v2 = case["model"], case["v2"]
    seen = []

    def f(_t, x):
        xd, u, nz, ps, ny = closed(x, u_ref, llc, model, v2)
        deg = np.array([u[0], *np.rad2deg(u[1:4])])
        if not (np.all(deg >= LO - 1e-9) and np.all(deg <= HI + 1e-9)):
            ctx.check(False, "a commanded control lies outside its actuator's limits", u=deg)
        seen.append(1)
        return xd

    sol = solve_ivp(f, (0, 10.0), x0, method="RK45", rtol=1e-5, atol=1e-6, t_eval=[0, 2.5, 5, 7.5, 10.0])
    if not sol.success:
        ctx.check(False, "the closed loop diverges from near trim", message=sol.message, model=model)
    xT = sol.y[:, -1]
    _, _, nz, ps, ny = closed(xT, u_ref, llc, model, v2)
    ctx.check(abs(nz) < 0.04, "the load factor does not settle to its reference", nz=nz, model=model, v2=v2)
    ctx.check(abs(ps) < 0.04, "the roll rate does not settle to its reference", ps=ps, model=model, v2=v2)
    ctx.check(abs(ny) < 0.02, "the side force does not settle to its reference", ny=ny, model=model, v2=v2)
    ctx.check(np.all(np.abs(xT[[1, 2]]) < 0.3) and abs(xT[0] - x0[0]) < 150 and abs(xT[11] - x0[11]) < 3000 and np.all(np.abs(xT[6:9]) < (0.5 if v2 else 0.1)),
              "the closed loop leaves the neighbourhood of trim", state=xT, model=model, v2=v2)
    ctx.worst["settled Nz/limit"] = max(ctx.worst.get("settled Nz/limit", 0), abs(nz) / 0.04)
    ctx.worst["settled ps/limit"] = max(ctx.worst.get("settled ps/limit", 0), abs(ps) / 0.04)
    ctx.worst["settled Ny/limit"] = max(ctx.worst.get("settled Ny/limit", 0), abs(ny) / 0.02)
    ctx.obs("closed-loop derivatives", len(seen))
    ctx.obs("settling histories")
    ctx.nontrivial()


def run(case, ctx):
    (one if case["do"] == "law" else settle)(case, ctx)
