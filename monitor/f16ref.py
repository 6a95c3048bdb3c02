"""Independent reference of the F-16 model: table interpolation, Morelli polynomials and vector-form rigid-body mechanics."""
import math

import numpy as np

from . import f16data as D

G = 32.17
S_REF, SPAN, CHORD, INV_MASS, H_ENG, XA = 300.0, 30.0, 11.32, 1.57e-3, 160.0, 15.0
IXX, IYY, IZZ, IXZ = 9496.0, 55814.0, 63100.0, 982.0
DEG = 180 / math.pi


def cell(x, x0, dx, n):
    """Index and fraction of x in an n-node uniform grid, linear extrapolation outside."""
    s = (x - x0) / dx
    i = min(max(int(math.floor(s)), 0), n - 2)
    return i, s - i


def lin1(row, alpha):
    i, f = cell(alpha, -10.0, 5.0, 12)
    return row[i] + f * (row[i + 1] - row[i])


def lin2(tab, y, y0, dy, alpha):
    j, f = cell(y, y0, dy, len(tab))
    return (1 - f) * lin1(tab[j], alpha) + f * lin1(tab[j + 1], alpha)


def cx(alpha, el):
    return lin2(D.CX, el, -24, 12, alpha)


def cm(alpha, el):
    return lin2(D.CM, el, -24, 12, alpha)


def cy(beta, ail, rdr):
    return -.02 * beta + .021 * ail / 20 + .086 * rdr / 30


def cz(alpha, beta, el):
    return lin1(D.CZ[0], alpha) * (1 - (beta / 57.3)**2) - .19 * el / 25


def odd(tab, alpha, beta):
    return math.copysign(1, beta) * lin2(tab, abs(beta), 0, 5, alpha)


def cl(alpha, beta):
    return odd(D.CL, alpha, beta)


def cn(alpha, beta):
    return odd(D.CN, alpha, beta)


def ctrl(tab):
    return lambda alpha, beta: lin2(tab, beta, -30, 10, alpha)


dlda, dldr, dnda, dndr = ctrl(D.DLDA), ctrl(D.DLDR), ctrl(D.DNDA), ctrl(D.DNDR)


def dampp(alpha):
    return [lin1(r, alpha) for r in D.DAMPP]


def _thr(tab, alt, mach):
    j, f = cell(mach, 0.0, 0.2, 6)
    i, g = cell(alt, 0.0, 10000.0, 6)
    return (1 - f) * ((1 - g) * tab[j][i] + g * tab[j][i + 1]) + f * ((1 - g) * tab[j + 1][i] + g * tab[j + 1][i + 1])


def thrust(power, alt, mach):
    idle, mil, mx = _thr(D.THRUST_A, alt, mach), _thr(D.THRUST_B, alt, mach), _thr(D.THRUST_C, alt, mach)
    if power < 50:
        return idle + (mil - idle) * power / 50
    return mil + (mx - mil) * (power - 50) / 50


def tgear(t):
    return 64.94 * t if t <= 0.77 else 217.38 * t - 117.38


def rtau(dp):
    return min(1.0, max(0.1, 1.9 - 0.036 * dp))


def pdot(power, command):
    if power >= 50:
        return 5.0 * ((command if command >= 50 else 40.0) - power)
    target = 60.0 if command >= 50 else command
    return rtau(target - power) * (target - power)


def air(v, alt):
    lapse = 1 - 0.703e-5 * alt
    temp = 390.0 if alt >= 35000 else 519.0 * lapse
    rho = 2.377e-3 * lapse**4.14
    return v / math.sqrt(1.4 * 1716.3 * temp), 0.5 * rho * v * v


def poly(c, x):
    return sum(k * x**n for n, k in enumerate(c))


def morelli(alpha, beta, de, da, dr, p, q, r, cbar, b, V, xcg, xcgref):
    """Morelli (1998) global polynomial model, angles in radians; inputs saturate at the ends of the fitted range."""
    R = math.pi / 180
    a = float(np.clip(alpha, -10 * R, 45 * R))
    be = float(np.clip(beta, -30 * R, 30 * R))
    de = float(np.clip(de, -25 * R, 25 * R))
    da = float(np.clip(da, -21.5 * R, 21.5 * R))
    dr = float(np.clip(dr, -30 * R, 30 * R))
    ph, qh, rh = p * b / 2 / V, q * cbar / 2 / V, r * b / 2 / V
    M = D.MORELLI
    def terms(k, *t):
        c = M[k]
        assert len(c) == len(t)
        return float(np.dot(c, t))
    CX = terms("a", 1, a, de**2, de, a * de, a**2, a**3) + poly(M["b"], a) * qh
    CY = terms("c", be, da, dr) + poly(M["d"], a) * ph + poly(M["e"], a) * rh
    CZ = poly(M["f"][:5], a) * (1 - be**2) + M["f"][5] * de + poly(M["g"], a) * qh
    clda = terms("k", 1, a, be, a**2, a * be, a**2 * be, a**3)
    cldr = terms("l", 1, a, be, a * be, a**2 * be, a**3 * be, be**2)
    CL = (terms("h", be, a * be, a**2 * be, be**2, a * be**2, a**3 * be, a**4 * be, a**2 * be**2) + poly(M["i"], a) * ph + poly(M["j"], a) * rh +
          clda * da + cldr * dr)
    CM = terms("m", 1, a, de, a * de, de**2, a**2 * de, de**3, a * de**2) + poly(M["n"], a) * qh + CZ * (xcgref - xcg)
    cnda = terms("r", 1, a, be, a * be, a**2 * be, a**3 * be, a**2, a**3, be**3, a * be**3)
    cndr = terms("s", 1, a, be, a * be, a**2 * be, a**2)
    CN = (terms("o", be, a * be, be**2, a * be**2, a**2 * be, a**2 * be**2, a**3 * be) + poly(M["p"], a) * ph + poly(M["q"], a) * rh + cnda * da +
          cndr * dr - CY * (xcgref - xcg) * cbar / b)
    return CX, CY, CZ, CL, CM, CN


def dcm(phi, theta, psi):
    """Body to NED."""
    c, s = math.cos, math.sin
    rz = np.array([[c(psi), -s(psi), 0], [s(psi), c(psi), 0], [0, 0, 1]])
    ry = np.array([[c(theta), 0, s(theta)], [0, 1, 0], [-s(theta), 0, c(theta)]])
    rx = np.array([[1, 0, 0], [0, c(phi), -s(phi)], [0, s(phi), c(phi)]])
    return rz @ ry @ rx


def derivative(x, u, model, adjust_cy=True):
    """(state derivative, error scale, Nz, Ny, az, ay, angular acceleration from the published inertias)."""
    V, al, be, phi, th, psi, p, q, r, _, _, alt, power = [float(v) for v in x]
    thr, el, ail, rdr = [float(v) for v in u]
    mach, qbar = air(V, alt)
    T = thrust(power, alt, mach)
    ad, bd = al * DEG, be * DEG
    if model == "stevens":
        C = np.array([cx(ad, el), cy(bd, ail, rdr), cz(ad, bd, el), cl(ad, bd) + dlda(ad, bd) * ail / 20 + dldr(ad, bd) * rdr / 30, cm(ad, el),
                      cn(ad, bd) + dnda(ad, bd) * ail / 20 + dndr(ad, bd) * rdr / 30])
    else:
        C = np.array(morelli(al, be, el / DEG, ail / DEG, rdr / DEG, p, q, r, CHORD, SPAN, V, 0.35, 0.35))
    d = dampp(ad)
    ph, qh, rh = p * SPAN / 2 / V, q * CHORD / 2 / V, r * SPAN / 2 / V
    C = C + np.array([d[0] * qh, d[1] * rh + d[2] * ph, d[3] * qh, d[4] * rh + d[5] * ph, d[6] * qh, d[7] * rh + d[8] * ph])
    vb = V * np.array([math.cos(al) * math.cos(be), math.sin(be), math.sin(al) * math.cos(be)])
    w = np.array([p, q, r])
    R = dcm(phi, th, psi)
    aero = INV_MASS * qbar * S_REF * C[:3]
    acc = aero + np.array([INV_MASS * T, 0, 0]) + R.T @ np.array([0, 0, G]) - np.cross(w, vb)
    xd = np.zeros(13)
    vd = float(vb @ acc) / V
    xd[0] = vd
    xd[1] = (vb[0] * acc[2] - vb[2] * acc[0]) / (vb[0]**2 + vb[2]**2)
    xd[2] = (acc[1] - math.sin(be) * vd) / (V * math.cos(be))
    E = np.array([[1, 0, -math.sin(th)], [0, math.cos(phi), math.sin(phi) * math.cos(th)], [0, -math.sin(phi), math.cos(phi) * math.cos(th)]])
    xd[3:6] = np.linalg.solve(E, w)
    L, Mm, Nn = qbar * S_REF * np.array([SPAN * C[3], CHORD * C[4], SPAN * C[5]])
    # published (rounded) inertia coefficients
    c1, c2, c3, c4, c5, c6, c7, c8, c9 = -.770, .02755, 1.055e-4, 1.642e-6, .9604, 1.759e-2, 1.792e-5, -.7336, 1.587e-5
    xd[6] = (c1 * r + c2 * p) * q + c3 * L + c4 * (Nn + H_ENG * q)
    xd[7] = c5 * p * r - c6 * (p * p - r * r) + c7 * (Mm - H_ENG * r)
    xd[8] = (c8 * p - c2 * r) * q + c4 * L + c9 * (Nn + H_ENG * q)
    J = np.array([[IXX, 0, -IXZ], [0, IYY, 0], [-IXZ, 0, IZZ]])
    wdot = np.linalg.solve(J, np.array([L, Mm, Nn]) - np.cross(w, J @ w + np.array([H_ENG, 0, 0])))
    ned = R @ vb
    xd[9], xd[10], xd[11] = ned[0], ned[1], -ned[2]
    xd[12] = pdot(power, tgear(thr))
    # error scales
    fs = G + np.max(np.abs(w)) * V + INV_MASS * (abs(T) + qbar * S_REF * float(np.sum(np.abs(C[:3]) + 0.05)))
    m = np.abs(w)
    Lm = qbar * S_REF * SPAN * (np.abs(C[3:]) + 0.02)
    rot = np.array([(abs(c1) * m[2] + c2 * m[0]) * m[1] + c3 * Lm[0] + c4 * (Lm[2] + H_ENG * m[1]),
                    c5 * m[0] * m[2] + c6 * (m[0]**2 + m[2]**2) + c7 * (Lm[1] + H_ENG * m[2]),
                    (abs(c8) * m[0] + c2 * m[2]) * m[1] + c4 * Lm[0] + c9 * (Lm[2] + H_ENG * m[1])]) + 1e-9
    ct = abs(math.cos(th))
    cb = abs(math.cos(be))
    sc = np.concatenate([[fs, fs / V / cb**2, fs / V / cb**2], np.sum(m) * np.array([1 / ct, 1, 1 / ct]) + 1e-9, rot, [V, V, V], [100.0]])
    az = aero[2] - XA * xd[7]
    ay = aero[1] + (XA * xd[8] if adjust_cy else 0)
    return {"xd": xd, "scale": sc, "Nz": -az / G - 1, "Ny": ay / G, "az": az, "ay": ay, "fs": fs + XA * float(np.max(rot)), "wdot": wdot, "rot": rot,
            "C": C, "T": T, "mach": mach}


def gen_f16_state(rng, wide=True):
    """Random flight-envelope state."""
    while True:
        alt = float(rng.uniform(0, 50000)) if rng.random() < 0.85 else float(rng.choice([0.0, 10000.0, 35000.0, 34999.0, 50000.0, 25000.0]))
        V = float(rng.uniform(150, 950))
        if air(V, alt)[0] <= 1.0:
            break
    a = float(rng.uniform(-10, 45)) if rng.random() < 0.6 else float(rng.uniform(-5, 15))
    if rng.random() < 0.1:
        a = float(rng.choice([-10, -5, 0, 5, 20, 45]))
    b = float(rng.uniform(-30, 30)) if rng.random() < 0.5 else float(rng.uniform(-5, 5))
    if rng.random() < 0.12:
        b = float(rng.choice([0, 5, -5, 10, -30, 30, -20]))
    w = rng.uniform(-1, 1, 3) * (np.array([3.0, 1.0, 1.0]) if wide else np.array([.5, .2, .2]))
    if rng.random() < 0.15:
        w[int(rng.integers(3))] = 0.0
    return [V, a / DEG, b / DEG, float(rng.uniform(-math.pi, math.pi)), float(rng.uniform(-1.45, 1.45)), float(rng.uniform(-math.pi, math.pi)),
            *w.tolist(), *rng.uniform(-1e5, 1e5, 2).tolist(), alt, float(rng.choice([0.0, 50.0, 100.0])) if rng.random() < 0.1 else float(rng.uniform(0, 100))]


def gen_f16_u(rng):
    t = float(rng.uniform(0, 1)) if rng.random() < 0.8 else float(rng.choice([0.0, 0.77, 0.769, 1.0]))
    return [t, float(rng.uniform(-25, 25)), float(rng.uniform(-21.5, 21.5)), float(rng.uniform(-30, 30))]
