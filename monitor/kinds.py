"""Entity kinds: random configurations, construction of the real entity, and an independent reference model of each."""
from __future__ import annotations

import math
import os
import zlib

import numpy as np
import scipy.linalg
from scipy.integrate import solve_ivp

from safe_autonomy_dynamics import integrators as sint
from safe_autonomy_dynamics import dubins as sdub
from safe_autonomy_dynamics.base_models import (BaseControlAffineODESolverDynamics, BaseEntity, BaseLinearODESolverDynamics,
                                                BaseODESolverDynamics)
from safe_autonomy_dynamics.cwh import point_model, rotational_model, sixdof_model, sun_model

INF = math.inf


# ---------------------------------------------------------------- reference models
class Ref:
    """Independent model of one configured entity.

    states/controls: names in documented order; umin/umax actuator limits; xmin/xmax state limits; dmin/dmax rate limits;
    wrap: index -> centre.  f(x,u): right-hand side inside limits; mag(x,u): sum of magnitudes of its terms (error scale).
    """
    states: tuple = ()
    controls: tuple = ()
    groups: tuple = ()  # index groups sharing an error scale
    f32 = False  # model computes in single precision somewhere

    def __init__(self):
        nx, nu = len(self.states), len(self.controls)
        self.nx, self.nu = nx, nu
        self.umin, self.umax = np.full(nu, -INF), np.full(nu, INF)
        self.xmin, self.xmax = np.full(nx, -INF), np.full(nx, INF)
        self.dmin, self.dmax = np.full(nx, -INF), np.full(nx, INF)
        self.wrap = {}
        self.linear = None  # (A, B) when linear

    # -- to override
    def f(self, x, u):
        raise NotImplementedError

    def mag(self, x, u):
        raise NotImplementedError

    # -- derived
    @property
    def limited(self):
        return bool(np.any(np.isfinite(self.xmin)) or np.any(np.isfinite(self.xmax)) or np.any(np.isfinite(self.dmin)) or
                    np.any(np.isfinite(self.dmax)))

    def clip_u(self, u):
        return np.clip(np.asarray(u, dtype=float), self.umin, self.umax)

    def lim(self, x, u):
        x = np.clip(x, self.xmin, self.xmax)
        d = np.clip(self.f(x, u), self.dmin, self.dmax)
        d = np.where(x <= self.xmin, np.maximum(d, 0), d)
        return np.where(x >= self.xmax, np.minimum(d, 0), d)

    def finish(self, x):
        x = np.clip(x, self.xmin, self.xmax)
        for i, c in self.wrap.items():
            x[i] = (x[i] - c + np.pi) % (2 * np.pi) - np.pi + c
        return x

    def exact(self, x, u, h):
        """State after h (clipped, not wrapped)."""
        x = np.asarray(x, dtype=float)
        if h == 0:
            return x.copy()
        if self.linear is not None and not self.limited:
            A, B = self.linear
            M = np.zeros((self.nx + 1, self.nx + 1))
            M[:self.nx, :self.nx] = A
            M[:self.nx, self.nx] = B @ u
            return (scipy.linalg.expm(M * h) @ np.append(x, 1.0))[:self.nx]
        d0 = np.abs(self.lim(x, u))
        scale = np.maximum(np.maximum(np.abs(x), d0 * h), 1e-3)
        kw = {}
        if self.limited:
            kw["max_step"] = h / 25
        s = solve_ivp(lambda t, y: self.lim(y, u), (0, h), x, method="DOP853", rtol=1e-10, atol=1e-11 * scale, **kw)
        assert s.success, s.message
        return np.clip(s.y[:, -1], self.xmin, self.xmax)

    def rk45(self, x, u, h, noise=None, **kw):
        rhs = (lambda t, y: self.lim(y, u)) if noise is None else (lambda t, y: self.lim(y, u) * (1 + 1e-7 * noise.normal(size=self.nx)))
        s = solve_ivp(rhs, (0, h), np.asarray(x, dtype=float), **kw)
        assert s.success, s.message
        return np.clip(s.y[:, -1], self.xmin, self.xmax)

    def saturating(self, x, u, h):
        """Does the motion meet (or start at) a state or rate limit?  (sampled, conservative)"""
        if not self.limited:
            return False
        d = self.f(np.clip(x, self.xmin, self.xmax), u)
        far = x + 1.5 * h * d
        lo, hi = np.minimum(x, far), np.maximum(x, far)
        if np.any(lo <= self.xmin + 1e-9) or np.any(hi >= self.xmax - 1e-9):
            return True
        m = self.mag(x, u)
        return bool(np.any(m >= 0.5 * self.dmax) or np.any(-m <= 0.5 * self.dmin)) if (
            np.any(np.isfinite(self.dmax)) or np.any(np.isfinite(self.dmin))) else False

    def scale(self, x, xe, h, u):
        s = np.maximum(np.abs(x), np.abs(xe))
        s = np.maximum(s, h * self.mag(np.clip(x, self.xmin, self.xmax), u))
        for g in self.groups:
            g = list(g)
            s[g] = np.max(s[g])
        return s

    def tolerance(self, x, u, h, xe, method="RK45"):
        """Allowed deviation from xe: ten times the error the documented solver has on this very step, plus rounding."""
        sc = self.scale(x, xe, h, u)
        sat = self.saturating(x, u, h)
        if method == "RK45_JAX":
            return sc * (2e-3 if sat else 1e-4) + 1e-6
        if h == 0:
            return sc * (2e-7 if self.f32 else 1e-12) + 1e-12
        err = np.abs(self.rk45(x, u, h) - xe)
        if sat:  # kinked motion: the solver's error depends erratically on its step sequence, so sample several sequences
            for kw in ({"rtol": 6e-4}, {"rtol": 1.5e-3, "atol": 1.5e-6}, {"first_step": h / 9}):
                err = np.maximum(err, np.abs(self.rk45(x, u, h, **kw) - xe))
            for k in range(3):  # and on rounding of the derivative
                err = np.maximum(err, np.abs(self.rk45(x, u, h, noise=np.random.default_rng(k)) - xe))
        for g in self.groups:
            g = list(g)
            err[g] = np.maximum(err[g], 0.2 * np.max(err[g]))
        tol = 10 * err + sc * (2e-6 if self.f32 else 1e-9) + 1e-10
        if sat:
            tol = tol + 2e-4 * np.minimum(sc, 5 * h * self.mag(np.clip(x, self.xmin, self.xmax), u) + 1e-9)
        return tol


def cw_accel(n, pos, vel):
    """Clohessy-Wiltshire acceleration, written from the equations x''=3n^2x+2ny', y''=-2nx', z''=-n^2z."""
    return np.array([3 * n * n * pos[0] + 2 * n * vel[1], -2 * n * vel[0], -n * n * pos[2]])


def cw_mag(n, pos, vel):
    p, v = np.abs(pos), np.abs(vel)
    return np.array([3 * n * n * p[0] + 2 * n * v[1], 2 * n * v[0], n * n * p[2]])


def quat_to_matrix(q):
    """Rotation matrix of scalar-last quaternion (not normalised): p -> q p q*."""
    x, y, z, w = q
    return np.array([
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ])


class CWHRef(Ref):
    states = ("x", "y", "z", "x_dot", "y_dot", "z_dot")
    controls = ("thrust_x", "thrust_y", "thrust_z")
    groups = ((0, 1), (2,), (3, 4), (5,))

    def __init__(self, m=12, n=0.001027, **_):
        super().__init__()
        self.m, self.n = m, n
        self.umin, self.umax = np.full(3, -1.0), np.full(3, 1.0)
        A = np.zeros((6, 6))
        A[0:3, 3:6] = np.eye(3)
        for j in range(3):
            e = np.eye(3)[j]
            A[3:6, j] = cw_accel(n, e, np.zeros(3))
            A[3:6, 3 + j] = cw_accel(n, np.zeros(3), e)
        B = np.vstack([np.zeros((3, 3)), np.eye(3) / m])
        self.linear = (A, B)

    def f(self, x, u):
        return np.concatenate([x[3:6], cw_accel(self.n, x[:3], x[3:]) + np.asarray(u) / self.m])

    def mag(self, x, u):
        return np.concatenate([np.abs(x[3:6]), cw_mag(self.n, x[:3], x[3:]) + np.abs(u) / self.m])

    pos, vel = (0, 1, 2), (3, 4, 5)


class Rot2dRef(Ref):
    states = ("x", "y", "theta", "x_dot", "y_dot", "wz")
    controls = ("thrust_x", "thrust_y", "moment_z")
    groups = ((0, 1), (3, 4))
    f32 = True
    pos, vel = (0, 1), (3, 4)

    def __init__(self, m=12, n=0.001027, inertia=0.0573, ang_acc_limit=0.017453, ang_vel_limit=0.034907, inertia_wheel=4.1e-5,
                 acc_limit_wheel=181.3, vel_limit_wheel=576, **_):
        super().__init__()
        self.m, self.n, self.inertia = m, n, inertia
        acc = min(ang_acc_limit, inertia_wheel * acc_limit_wheel / inertia)
        vel = min(ang_vel_limit, inertia_wheel * vel_limit_wheel / inertia)
        self.acc, self.velmax = acc, vel
        self.umin, self.umax = np.array([-1, -1, -acc * inertia]), np.array([1, 1, acc * inertia])
        self.xmin[5], self.xmax[5] = -vel, vel
        self.dmin[2], self.dmax[2] = -vel, vel
        self.dmin[5], self.dmax[5] = -acc, acc
        self.wrap = {2: 0.0}

    def f(self, x, u):
        c, s = math.cos(x[2]), math.sin(x[2])
        a = cw_accel(self.n, [x[0], x[1], 0], [x[3], x[4], 0])
        return np.array([x[3], x[4], x[5], a[0] + (c * u[0] - s * u[1]) / self.m, a[1] + (s * u[0] + c * u[1]) / self.m, u[2] / self.inertia])

    def mag(self, x, u):
        a = cw_mag(self.n, [x[0], x[1], 0], [x[3], x[4], 0])
        t = (abs(u[0]) + abs(u[1])) / self.m
        return np.array([abs(x[3]), abs(x[4]), abs(x[5]), a[0] + t, a[1] + t, abs(u[2]) / self.inertia])


class SixRef(Ref):
    states = ("x", "y", "z", "q1", "q2", "q3", "q4", "x_dot", "y_dot", "z_dot", "wx", "wy", "wz")
    controls = ("thrust_x", "thrust_y", "thrust_z", "moment_x", "moment_y", "moment_z")
    groups = ((0, 1, 2), (3, 4, 5, 6), (7, 8, 9))
    f32 = True
    pos, vel = (0, 1, 2), (7, 8, 9)

    def __init__(self, m=12, n=0.001027, inertia=(0.0573,) * 3, ang_acc_limit=0.017453, ang_vel_limit=0.034907, inertia_wheel=4.1e-5,
                 acc_limit_wheel=181.3, vel_limit_wheel=576, thrust_control_limit=1.0, body_frame_thrust=True, **_):
        super().__init__()
        self.m, self.n, self.body = m, n, body_frame_thrust
        J = np.asarray(inertia, dtype=float)
        self.J = J
        al = np.broadcast_to(np.asarray(ang_acc_limit, dtype=float), 3)
        vl = np.broadcast_to(np.asarray(ang_vel_limit, dtype=float), 3)
        self.acc = np.minimum(al, inertia_wheel * acc_limit_wheel / J)
        self.velmax = np.minimum(vl, inertia_wheel * vel_limit_wheel / J)
        cl = np.concatenate([np.full(3, thrust_control_limit), self.acc * J])
        self.umin, self.umax = -cl, cl
        self.xmin[10:], self.xmax[10:] = -self.velmax, self.velmax

    def f(self, x, u):
        q, w = x[3:7], x[10:13]
        a = cw_accel(self.n, x[0:3], x[7:10])
        F = np.asarray(u[:3], dtype=float)
        a = a + (quat_to_matrix(q) @ F if self.body else F) / self.m
        qv, qs = q[:3], q[3]
        # q' = 1/2 q (x) (w, 0)
        dqv = 0.5 * (qs * w + np.cross(qv, w))
        dqs = -0.5 * np.dot(qv, w)
        dw = (np.asarray(u[3:6]) - np.cross(w, self.J * w)) / self.J
        return np.concatenate([x[7:10], dqv, [dqs], a, dw])

    def mag(self, x, u):
        q, w = np.abs(x[3:7]), np.abs(x[10:13])
        a = cw_mag(self.n, x[0:3], x[7:10])
        t = np.sum(np.abs(u[:3])) / self.m * max(1.0, float(q @ q)) * 2
        J = self.J
        g = np.array([(J[1] + J[2]) * w[1] * w[2] / J[0], (J[0] + J[2]) * w[0] * w[2] / J[1], (J[0] + J[1]) * w[0] * w[1] / J[2]])
        return np.concatenate([np.abs(x[7:10]), np.full(4, 0.5 * np.sum(w) * np.max(q)), a + t, g + np.abs(u[3:6]) / J])


def f32(v):
    return float(np.float32(v))


class Dub2Ref(Ref):
    states = ("x", "y", "heading", "v")
    controls = ("heading_rate", "acceleration")
    groups = ((0, 1),)
    f32 = True
    pos, vel = (0, 1), None

    def __init__(self, v_min=200, v_max=400, heading_rate_control_min=-0.174533, heading_rate_control_max=0.174533,
                 acceleration_control_min=-96.5, acceleration_control_max=96.5, **_):
        super().__init__()
        self.umin = np.array([heading_rate_control_min, acceleration_control_min], dtype=float)
        self.umax = np.array([heading_rate_control_max, acceleration_control_max], dtype=float)
        self.xmin[3], self.xmax[3] = f32(v_min), f32(v_max)
        self.wrap = {2: 0.0}

    def f(self, x, u):
        return np.array([x[3] * math.cos(x[2]), x[3] * math.sin(x[2]), u[0], u[1]])

    def mag(self, x, u):
        return np.array([abs(x[3]), abs(x[3]), abs(u[0]), abs(u[1])])


class Dub3Ref(Ref):
    states = ("x", "y", "z", "heading", "gamma", "roll", "v")
    controls = ("gamma_rate", "roll_rate", "acceleration")
    groups = ((0, 1, 2),)
    f32 = True
    pos, vel = (0, 1, 2), None

    def __init__(self, v_min=200, v_max=400, gamma_min=-0.349066, gamma_max=0.349066, roll_min=-1.047198, roll_max=1.047198,
                 gamma_rate_control_min=-0.174533, gamma_rate_control_max=0.174533, roll_rate_control_min=-0.087266,
                 roll_rate_control_max=0.087266, acceleration_control_min=-96.5, acceleration_control_max=96.5, **_):
        super().__init__()
        self.umin = np.array([gamma_rate_control_min, roll_rate_control_min, acceleration_control_min], dtype=float)
        self.umax = np.array([gamma_rate_control_max, roll_rate_control_max, acceleration_control_max], dtype=float)
        self.xmin[4:], self.xmax[4:] = [f32(gamma_min), f32(roll_min), f32(v_min)], [f32(gamma_max), f32(roll_max), f32(v_max)]
        self.wrap = {3: 0.0, 4: 0.0, 5: 0.0}
        self.g = 32.17

    def f(self, x, u):
        _, _, _, psi, gam, phi, v = x
        cg = math.cos(gam)
        return np.array([v * cg * math.cos(psi), v * cg * math.sin(psi), -v * math.sin(gam), self.g * math.tan(phi) / v, u[0], u[1], u[2]])

    def mag(self, x, u):
        v = abs(x[6])
        return np.array([v, v, v, self.g * (abs(math.tan(x[5])) + 1e-3) / v, abs(u[0]), abs(u[1]), abs(u[2])])


class IntRef(Ref):
    def __init__(self, dim, m=1, damping=0, **_):
        ax = "xyz"[:dim]
        self.states = tuple(ax) + tuple(a + "_dot" for a in ax)
        self.controls = tuple("thrust_" + a for a in ax)
        self.groups = ()
        super().__init__()
        self.dim, self.m, self.damping = dim, m, damping
        self.umin, self.umax = np.full(dim, -1.0), np.full(dim, 1.0)
        self.pos, self.vel = tuple(range(dim)), tuple(range(dim, 2 * dim))

    def f(self, x, u):
        d = self.dim
        return np.concatenate([x[d:], np.asarray(u) / self.m - self.damping * x[d:]])

    def mag(self, x, u):
        d = self.dim
        return np.concatenate([np.abs(x[d:]), np.abs(u) / self.m + self.damping * np.abs(x[d:])])

    def exact(self, x, u, h):
        if self.limited:
            return super().exact(x, u, h)
        d, c = self.dim, self.damping
        p, v, a = np.asarray(x[:d], float), np.asarray(x[d:], float), np.asarray(u, float) / self.m
        ch = c * h
        # phi1 = (1-e^-ch)/(ch), phi2 = (ch-1+e^-ch)/(ch)^2, by series when small
        if ch < 1e-3:
            p1 = 1 - ch / 2 + ch * ch / 6 - ch**3 / 24
            p2 = 0.5 - ch / 6 + ch * ch / 24 - ch**3 / 120
        else:
            p1 = -math.expm1(-ch) / ch
            p2 = (ch + math.expm1(-ch)) / ch**2
        return np.concatenate([p + v * h * p1 + a * h * h * p2, v * math.exp(-ch) + a * h * p1])


class SunRef(Ref):
    states = ("theta",)
    controls = ()

    def __init__(self, n=0.001027, **_):
        super().__init__()
        self.n = n

    def f(self, x, u):
        return np.array([self.n])

    def mag(self, x, u):
        return np.array([abs(self.n)])

    def exact(self, x, u, h):
        if self.limited:
            return super().exact(x, u, h)
        return np.array([float(x[0]) + self.n * h])


# ---------------------------------------------------------------- user-defined models (extension points)
class ArrayEntity(BaseEntity):
    """Minimal user-defined entity over any dynamics object."""

    def __init__(self, dynamics, x0, nu, umin=-np.inf, umax=np.inf, names=None, default=None, **kw):
        self._x0 = np.array(x0, dtype=float)
        super().__init__(
            dynamics, control_default=np.zeros(nu) if default is None else np.asarray(default), control_min=umin,
            control_max=umax, control_map={k: i for i, k in enumerate(names)} if names else None, **kw)

    def _build_state(self):
        return self._x0.copy()

    x = y = z = property(lambda self: 0.0)
    position = velocity = property(lambda self: np.zeros(3))
    orientation = property(lambda self: None)


class Pendulum(BaseControlAffineODESolverDynamics):
    """User-defined control-affine model: damped driven pendulum with a wrapped angle."""

    def __init__(self, k=1.0, c=0.1, hook=None, **kw):
        self.k, self.c, self.hook = k, c, hook
        super().__init__(**kw)

    def state_transition_system(self, state):
        if self.hook is not None:
            self.hook()
        return self.np.array([state[1], -self.k * self.np.sin(state[0]) - self.c * state[1]])

    def state_transition_input(self, state):
        return self.np.array([[0.0], [1.0 + 0.5 * self.np.cos(state[0])]])


class CustomRef(Ref):
    """Reference of a user-defined model with the limits of spec (see gen_custom)."""

    def configure(self, spec):
        for name, dst in (("xmin", self.xmin), ("xmax", self.xmax), ("dmin", self.dmin), ("dmax", self.dmax), ("umin", self.umin),
                          ("umax", self.umax)):
            v = spec.get(name)
            if v is not None:
                dst[:] = [(-INF if name.endswith("min") else INF) if q is None else q for q in v] if isinstance(v, list) else v
        self.wrap = {i: c for i, c in enumerate(spec.get("wrap") or []) if c is not None}
        self.f32 = bool(spec.get("jax")) or spec["method"] == "RK45_JAX"
        return self

    def saturating(self, x, u, h):
        return self.limited


class PendRef(CustomRef):
    states = ("a", "w")
    controls = ("c0", )

    def __init__(self, k, c):
        super().__init__()
        self.k, self.c = k, c

    def f(self, x, u):
        return np.array([x[1], -self.k * math.sin(x[0]) - self.c * x[1] + (1 + 0.5 * math.cos(x[0])) * u[0]])

    def mag(self, x, u):
        return np.array([abs(x[1]), self.k + self.c * abs(x[1]) + 1.5 * abs(u[0])])


class General(BaseODESolverDynamics):
    """User-defined model that is not affine in its control."""

    def __init__(self, k=1.0, c=0.1, hook=None, **kw):
        self.k, self.c, self.hook = k, c, hook
        super().__init__(**kw)

    def _compute_state_dot(self, t, state, control):
        if self.hook is not None:
            self.hook()
        return self.np.array([state[1] * self.np.cos(control[1]), -self.k * self.np.tanh(state[0]) - self.c * state[1] + control[0]**3])


class GenRef(CustomRef):
    states = ("p", "q")
    controls = ("c0", "c1")

    def __init__(self, k, c):
        super().__init__()
        self.k, self.c = k, c

    def f(self, x, u):
        return np.array([x[1] * math.cos(u[1]), -self.k * math.tanh(x[0]) - self.c * x[1] + u[0]**3])

    def mag(self, x, u):
        return np.array([abs(x[1]), self.k + self.c * abs(x[1]) + abs(u[0])**3])


class LinRef(CustomRef):
    def __init__(self, A, B):
        A, B = np.asarray(A, float), np.asarray(B, float)
        self.states = tuple(f"s{i}" for i in range(A.shape[0]))
        self.controls = tuple(f"c{i}" for i in range(B.shape[1]))
        self.groups = (tuple(range(A.shape[0])),)
        super().__init__()
        self.linear = (A, B)

    def f(self, x, u):
        A, B = self.linear
        return A @ x + B @ u

    def mag(self, x, u):
        A, B = self.linear
        return np.abs(A) @ np.abs(x) + np.abs(B) @ np.abs(u)


# ---------------------------------------------------------------- configurations
def logu(rng, lo, hi):
    return float(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def pick(rng, *opts):
    return opts[int(rng.integers(len(opts)))]


def maybe(rng, p):
    return bool(rng.random() < p)


def rquat(rng):
    mode = rng.random()
    if mode < 0.1:
        q = np.zeros(4)
        q[int(rng.integers(4))] = pick(rng, 1.0, -1.0)
    else:
        q = rng.normal(size=4)
        if mode < 0.25:
            q[int(rng.integers(4))] = 0.0
    return (q / np.linalg.norm(q)).tolist()


SPACECRAFT = ("cwh", "rot2d", "sixdof")
KINDS = ("cwh", "rot2d", "sixdof", "dub2", "dub3", "int1", "int2", "int3")
METHODS = {"cwh": ("RK45", "Euler"), "rot2d": ("RK45", "Euler", "RK45_JAX"), "sixdof": ("RK45", "Euler"), "dub2": ("RK45", "Euler"),
           "dub3": ("RK45", "Euler"), "int1": ("RK45", "Euler"), "int2": ("RK45", "Euler"), "int3": ("RK45", "Euler"),
           "sun": ("RK45", "Euler")}


ZEROABLE = ("n", "thrust_control_limit", "ang_acc_limit", "ang_vel_limit", "inertia_wheel", "acc_limit_wheel", "vel_limit_wheel",
            "acceleration_control_min", "acceleration_control_max", "heading_rate_control_min", "heading_rate_control_max", "gamma_min", "gamma_max",
            "roll_min", "roll_max", "gamma_rate_control_min", "gamma_rate_control_max", "roll_rate_control_min", "roll_rate_control_max")


def gen(rng, kind, default_p=0.25, method="RK45", wide=False, init=True):
    """Random JSON-serialisable configuration of a kind: {'kind','kw','init','method'}."""
    kw = {}
    d = maybe(rng, default_p)
    if kind in SPACECRAFT:
        if not d:
            kw["m"] = pick(rng, logu(rng, 0.5, 500), int(rng.integers(1, 100)))
            kw["n"] = pick(rng, logu(rng, 1e-4, 1e-2), logu(rng, 1e-3, 8e-2))
    if kind == "rot2d" and not d:
        kw["inertia"] = logu(rng, 0.01, 1.0)
    if kind == "sixdof" and not d:
        kw["inertia"] = [logu(rng, 0.02, 0.5) for _ in range(3)]
        kw["matrix"] = pick(rng, "array", "matrix")
        kw["body_frame_thrust"] = maybe(rng, 0.65)
        if maybe(rng, 0.2):
            kw["body_frame_thrust"] = int(kw["body_frame_thrust"])  # made a NumPy truth value where it is used
        if maybe(rng, 0.5):
            kw["thrust_control_limit"] = logu(rng, 0.1, 20)
    if kind in ("rot2d", "sixdof") and not d:
        lim = lambda lo, hi: logu(rng, lo, hi)  # noqa: E731
        kw["ang_acc_limit"] = lim(0.005, 1.0)
        kw["ang_vel_limit"] = lim(0.02, 2.0)
        if kind == "sixdof":
            form = pick(rng, "scalar", "list", "array")
            if form != "scalar":
                kw["ang_acc_limit"] = [lim(0.005, 1.0) for _ in range(3)]
                kw["ang_vel_limit"] = [lim(0.02, 2.0) for _ in range(3)]
            kw["limform"] = form
        kw["inertia_wheel"] = lim(1e-5, 1e-3)
        kw["acc_limit_wheel"] = lim(50, 2000)
        kw["vel_limit_wheel"] = lim(100, 5000)
    if kind in ("dub2", "dub3") and not d:
        lo = logu(rng, 20, 400)
        kw["v_min"], kw["v_max"] = lo, lo * rng.uniform(1.05, 4)
        if kind == "dub2" and maybe(rng, 0.2):
            kw["v_min"] = 0.0
        kw["acceleration_control_min"], kw["acceleration_control_max"] = -logu(rng, 5, 150), logu(rng, 5, 150)
    if kind == "dub2" and not d:
        kw["heading_rate_control_min"], kw["heading_rate_control_max"] = -logu(rng, 0.02, 1.0), logu(rng, 0.02, 1.0)
    if kind == "dub3" and not d:
        kw["gamma_min"], kw["gamma_max"] = -rng.uniform(0.1, 1.2), rng.uniform(0.1, 1.2)
        kw["roll_min"], kw["roll_max"] = -rng.uniform(0.2, 1.2), rng.uniform(0.2, 1.2)
        kw["gamma_rate_control_min"], kw["gamma_rate_control_max"] = -logu(rng, 0.02, 0.5), logu(rng, 0.02, 0.5)
        kw["roll_rate_control_min"], kw["roll_rate_control_max"] = -logu(rng, 0.02, 0.5), logu(rng, 0.02, 0.5)
    if kind in ("int1", "int2", "int3") and not d:
        kw["m"] = logu(rng, 0.1, 50)
        kw["damping"] = pick(rng, 0, logu(rng, 1e-3, 2.0))
    if kind == "sun" and not d:
        kw["n"] = pick(rng, logu(rng, 1e-6, 1.0), -logu(rng, 1e-4, 0.1), 0.0)
    for k in ZEROABLE:  # an option of zero is an option given
        if k in kw and not isinstance(kw[k], list) and maybe(rng, 0.15 if k == "thrust_control_limit" else 0.05):
            kw[k] = pick(rng, 0, 0.0)
    spec = {"kind": kind, "kw": {k: (round(v, 12) if isinstance(v, float) else v) for k, v in kw.items()}, "method": method}
    if init:
        spec["x0"] = gen_state(rng, spec, wide)
    return spec


def gen_state(rng, spec, wide=False):
    """Random in-limit state (list of floats)."""
    k = spec["kind"]
    r = make_ref(spec)
    big = logu(rng, 1, 2e4)
    vb = logu(rng, 1e-2, 20)
    far = 1e4
    if maybe(rng, 0.08):
        big, vb = pick(rng, (logu(rng, 2e4, 1e7), vb), (big, logu(rng, 20, 5e3)), (logu(rng, 1e-6, 1), logu(rng, 1e-8, 1e-2)))
        far = logu(rng, 1, 1e7)
    def p(n, s):
        v = rng.uniform(-s, s, n)
        v[rng.random(n) < 0.12] = 0.0
        return v.tolist()
    if k == "cwh":
        return p(3, big) + p(3, vb)
    def within(i, edge=0.1):
        lo, hi = r.xmin[i], r.xmax[i]
        if maybe(rng, edge):
            return float(pick(rng, lo, hi))
        if lo < 0 < hi and maybe(rng, 0.18):
            return 0.0
        return float(rng.uniform(lo, hi))
    if k == "rot2d":
        return p(2, big) + [float(rng.uniform(-np.pi, np.pi))] + p(2, vb) + [within(5)]
    if k == "sixdof":
        return p(3, big) + rquat(rng) + p(3, vb) + [within(i) for i in (10, 11, 12)]
    if k == "dub2":
        return p(2, far) + [float(rng.uniform(-np.pi, np.pi)), within(3)]
    if k == "dub3":
        return p(3, far) + [float(rng.uniform(-np.pi, np.pi)), within(4), within(5), within(6)]
    if k.startswith("int"):
        n = int(k[3])
        return p(n, min(big, 1e3) if far == 1e4 else big) + p(n, vb)
    if k == "sun":
        return [float(rng.uniform(-10, 10))]
    raise KeyError(k)


REFS = {"cwh": CWHRef, "rot2d": Rot2dRef, "sixdof": SixRef, "dub2": Dub2Ref, "dub3": Dub3Ref, "sun": SunRef,
        "int1": lambda **k: IntRef(1, **k), "int2": lambda **k: IntRef(2, **k), "int3": lambda **k: IntRef(3, **k)}
CLS = {"cwh": point_model.CWHSpacecraft, "rot2d": rotational_model.CWHRotation2dSpacecraft, "sixdof": sixdof_model.SixDOFSpacecraft,
       "dub2": sdub.Dubins2dAircraft, "dub3": sdub.Dubins3dAircraft, "sun": sun_model.SunEntity,
       "int1": sint.Integrator1d, "int2": sint.Integrator2d, "int3": sint.Integrator3d}


def gen_custom(rng, model=None, method=None, limits=None, wrap=None, nmax=5, jax=None):
    """Random user-defined model over the library's base classes, with random limits, wrap centres and control limits."""
    model = model or pick(rng, "lin", "pend", "gen")
    method = method or pick(rng, "RK45", "RK45", "Euler")
    spec = {"kind": "custom", "model": model, "method": method}
    if jax if jax is not None else (method == "RK45_JAX" or maybe(rng, 0.1)):
        spec["jax"] = True
    if model == "lin":
        nx, nu = int(rng.integers(1, nmax + 1)), int(rng.integers(1, 4))
        A = rng.normal(size=(nx, nx)) * logu(rng, 0.05, 1.0)
        A -= np.eye(nx) * rng.uniform(0, 0.5)
        A[rng.random(A.shape) < 0.3] = 0
        slow = logu(rng, 1e-6, 1e-2) if method != "RK45_JAX" and maybe(rng, 0.12) else 1.0
        spec.update(A=(A * slow).round(15).tolist(), B=(rng.normal(size=(nx, nu)) * logu(rng, 0.1, 3) * slow).round(15).tolist())
    else:
        nx, nu = 2, (1 if model == "pend" else 2)
        spec.update(k=round(logu(rng, 0.1, 3), 9), c=round(logu(rng, 0.01, 0.5), 9))
    limits = pick(rng, "none", "x", "x", "d", "xd") if limits is None else limits
    wrapped = []
    if model != "gen" and (wrap if wrap is not None else maybe(rng, 0.4)):
        free = range(nx) if model == "lin" else [0]
        spec["wrap"] = [pick(rng, 0.0, float(rng.uniform(-20, 20)), np.pi) if (i in free and maybe(rng, 0.6 if model == "lin" else 1.0))
                        else None for i in range(nx)]
        wrapped = [i for i, c in enumerate(spec["wrap"]) if c is not None]
        if model == "lin":  # a wrapped component is an angle: nothing may depend on its number of turns
            for row in spec["A"]:
                for i in wrapped:
                    row[i] = 0.0
    sc = logu(rng, 0.3, 5)

    def lims(lo_name, hi_name, scale, skip=()):
        form = pick(rng, "scalar", "vector", "vector", "one-sided")
        if form == "scalar" and not skip:
            spec[lo_name], spec[hi_name] = -round(scale * rng.uniform(0.5, 2), 6), round(scale * rng.uniform(0.5, 2), 6)
            if maybe(rng, 0.3):  # whole numbers, nothing else
                spec[lo_name], spec[hi_name] = -int(np.ceil(-spec[lo_name])), int(np.ceil(spec[hi_name]))
            if maybe(rng, 0.2):
                spec[pick(rng, lo_name, hi_name)] = pick(rng, 0, 0.0)
        elif form == "one-sided" and not skip:
            if maybe(rng, 0.5):
                spec[lo_name] = -round(scale * rng.uniform(0.5, 2), 6)
            else:
                spec[hi_name] = round(scale * rng.uniform(0.5, 2), 6)
            if maybe(rng, 0.25):
                nm = lo_name if spec.get(lo_name) is not None else hi_name
                spec[nm] = pick(rng, 0, 0.0, int(np.sign(spec[nm])))
        else:
            for nm, sg in ((lo_name, -1), (hi_name, 1)):
                spec[nm] = [None if (i in skip or maybe(rng, 0.35)) else sg * round(scale * rng.uniform(0.5, 2), 6) for i in range(nx)]
            for i in range(nx):  # a limit of zero, or a component held at one value
                if maybe(rng, 0.08) and spec[lo_name][i] is not None:
                    spec[lo_name][i] = 0.0
                elif lo_name == "xmin" and maybe(rng, 0.08) and spec[lo_name][i] is not None and spec[hi_name][i] is not None:
                    spec[lo_name][i] = spec[hi_name][i]
    if "x" in limits:
        lims("xmin", "xmax", sc, wrapped)
    if "d" in limits:
        lims("dmin", "dmax", sc * rng.uniform(0.2, 1.5))
        for i in range(nx):  # a component that may only rise, or only fall
            if isinstance(spec.get("dmin"), list) and isinstance(spec.get("dmax"), list) and maybe(rng, 0.12):
                a, b = sorted((round(sc * logu(rng, 0.02, 0.5), 6), round(sc * logu(rng, 0.02, 0.5), 6)))
                spec["dmin"][i], spec["dmax"][i] = pick(rng, (a, b), (-b, -a), (a, None), (None, -a), (0.0, b), (a, a))
    cf = pick(rng, "none", "scalar", "vector", "one-sided")
    if cf == "scalar":
        spec["umin"], spec["umax"] = -round(rng.uniform(0.3, 2), 6), round(rng.uniform(0.3, 2), 6)
    elif cf == "vector":
        spec["umin"], spec["umax"] = (-rng.uniform(0.3, 2, nu)).round(6).tolist(), rng.uniform(0.3, 2, nu).round(6).tolist()
    elif cf == "one-sided":
        spec["umax"] = round(rng.uniform(0.3, 2), 6)
    if maybe(rng, 0.3):
        spec["default"] = rng.uniform(-0.25, 0.25, nu).round(6).tolist() if maybe(rng, 0.7) else [0] * nu  # whole numbers: an integer array
        if maybe(rng, 0.25):  # a neutral control the actuators cannot reach
            spec["default"] = rng.uniform(-3, 3, nu).round(6).tolist()
    if maybe(rng, 0.8):
        spec["names"] = [f"c{i}" for i in range(nu)]
    r = make_ref(spec)
    lo, hi = np.maximum(r.xmin, -sc), np.minimum(r.xmax, sc)
    x0 = rng.uniform(lo, np.maximum(hi, lo))
    for i in range(nx):
        if maybe(rng, 0.15) and np.isfinite(r.xmin[i]):
            x0[i] = r.xmin[i]
        elif maybe(rng, 0.15) and np.isfinite(r.xmax[i]):
            x0[i] = r.xmax[i]
    for i, c in r.wrap.items():
        x0[i] = c + rng.uniform(-np.pi, np.pi)
    spec["x0"] = x0.round(9).tolist()
    spec["x0"] = np.clip(spec["x0"], r.xmin, r.xmax).tolist()
    return spec


def gen_custom_h(rng, spec):
    """Step lengths over which the custom model neither explodes nor oscillates beyond the solver's reach."""
    rate = 1.0
    if spec["model"] == "lin":
        rate = max(0.3, np.linalg.norm(spec["A"], 2))
        small = max(np.linalg.norm(spec["A"], 2), np.linalg.norm(spec["B"], 2))
        if small < 2e-2:
            rate = 3 * max(small, 1e-7)
    return round(logu(rng, 1e-3, 3.0 if spec["method"] != "Euler" else 0.5) / rate, 9)


GIVEN = None  # where a monitor wants to see them: every array handed to a constructor, with a copy


def given(a):
    if GIVEN is not None:
        GIVEN.append((a, np.array(a)))
    return a


def _lim_arg(v, sign):
    if isinstance(v, list):
        return given(np.array([sign * INF if q is None else q for q in v], dtype=float))
    return v


def build_custom_dynamics(spec, hook=None, **extra):
    kw = {"integration_method": spec["method"]}
    for name, arg, sg in (("xmin", "state_min", -1), ("xmax", "state_max", 1), ("dmin", "state_dot_min", -1), ("dmax", "state_dot_max", 1)):
        if spec.get(name) is not None:
            kw[arg] = _lim_arg(spec[name], sg)
    if spec.get("wrap"):
        kw["angle_wrap_centers"] = given(np.array(spec["wrap"], dtype=float))
    if spec.get("jax"):
        kw["use_jax"] = True
    if sampling(spec):
        kw["trajectory_samples"] = sampling(spec)
    kw.update(extra)
    if spec["model"] == "lin":
        return BaseLinearODESolverDynamics(given(np.array(spec["A"], dtype=float)), given(np.array(spec["B"], dtype=float)), **kw)
    return (Pendulum if spec["model"] == "pend" else General)(k=spec["k"], c=spec["c"], hook=hook, **kw)


def build_custom(spec, name="e", hook=None, **extra):
    kw = {}
    if spec.get("umin") is not None:
        kw["umin"] = _lim_arg(spec["umin"], -1)
    if spec.get("umax") is not None:
        kw["umax"] = _lim_arg(spec["umax"], 1)
    nu = make_ref(spec).nu
    return ArrayEntity(build_custom_dynamics(spec, hook=hook, **extra), spec["x0"], nu, names=spec.get("names"),
                       default=given(np.array(spec["default"])) if spec.get("default") else None, name=name, **kw)


# ---------------------------------------------------------------- library dynamics used directly, with the user's own limits
LIBDYN = ("cwh", "int1", "int2", "int3", "dub2", "dub3", "rot2d", "sixdof", "sun")


def sampling(spec):
    """Trajectory samples to request: the property's own choice, or the incidental one every workload is strewn with."""
    return spec.get("samples") or (spec.get("sampled") if spec["method"] == "RK45" else None)


def strew(case, rng):
    """Incidental configuration no property may depend on: some adaptive entities also record trajectory samples."""
    if isinstance(case, dict):
        if "kind" in case and "method" in case:
            if case["method"] == "RK45" and case["kind"] != "sun" and not case.get("samples") and rng.random() < 0.15:
                case["sampled"] = int(rng.integers(1, 6))
        for v in case.values():
            strew(v, rng)
    elif isinstance(case, list):
        for v in case:
            if isinstance(v, (dict, list)):
                strew(v, rng)


def gen_libdyn(rng, base=None, method=None, limits=None, wrap=None):
    """A library dynamics object built by the user, with user limits / wrap centres overriding the model's defaults."""
    base = base or pick(rng, *LIBDYN)
    method = method or pick(rng, "RK45", "RK45", "Euler")
    src = gen(rng, base, method=method, default_p=0.2, init=False)
    keep = ("m", "n", "damping", "inertia", "body_frame_thrust", "ang_acc_limit", "ang_vel_limit", "limform", "matrix")
    spec = {"kind": "libdyn", "base": base, "method": method, "kw": {k: v for k, v in src["kw"].items() if k in keep}}
    if base in ("rot2d", "sixdof"):  # no wheels here: the craft's limits are the limits
        spec["wheel"] = {"inertia_wheel": 1.0, "acc_limit_wheel": 1e9, "vel_limit_wheel": 1e9}
    if base == "dub3":
        spec["g"] = pick(rng, 32.17, 9.80665, round(logu(rng, 1, 100), 9))
    r = REFS[base](**dict(spec["kw"], **spec.get("wheel", {})))
    full = gen(rng, base, method=method)
    fr = make_ref(full)
    x0 = arr(full["x0"])
    free = [i for i in range(r.nx) if not (base == "sixdof" and 3 <= i < 7)]
    wrapped = {"dub2": [2], "dub3": [3], "rot2d": [2], "sun": []}.get(base, [])
    if wrapped and (wrap if wrap is not None else maybe(rng, 0.5)):
        c = pick(rng, 0.0, float(np.pi), round(float(rng.uniform(-20, 20)), 6))
        spec["wrap"] = [c if i in wrapped else None for i in range(r.nx)]
        for i in wrapped:
            x0[i] = c + rng.uniform(-np.pi, np.pi)
    limits = pick(rng, "none", "x", "d", "xd") if limits is None else limits
    if base == "dub3":
        spec["xmin"] = [None] * 4 + [fr.xmin[i] for i in (4, 5, 6)]
        spec["xmax"] = [None] * 4 + [fr.xmax[i] for i in (4, 5, 6)]
    if "x" in limits:
        for nm, sg in (("xmin", -1), ("xmax", 1)):
            if maybe(rng, 0.25) and base != "dub3":
                continue
            v = spec.get(nm) or [None] * r.nx
            for i in free:
                if i in wrapped or v[i] is not None or maybe(rng, 0.5):
                    continue
                v[i] = round(float(x0[i] + sg * logu(rng, 1e-2, 2) * max(abs(x0[i]), 0.5)), 6)
            spec[nm] = v
    if "d" in limits:
        u = arr(gen_u(rng, fr))
        m = np.maximum(fr.mag(np.clip(x0, fr.xmin, fr.xmax), u), 1e-3)
        for nm, sg in (("dmin", -1), ("dmax", 1)):
            if maybe(rng, 0.25):
                continue
            spec[nm] = [None if (i not in free or maybe(rng, 0.5)) else round(float(sg * m[i] * logu(rng, 0.1, 2)), 9) for i in range(r.nx)]
    free_scalar = base not in ("sixdof", "dub3") and not wrapped
    if "x" in limits and free_scalar and base != "rot2d" and maybe(rng, 0.2):  # one number for all
        b = float(np.max(np.abs(x0))) * rng.uniform(1, 1.5) + 0.1
        for nm, v in (("xmin", -b), ("xmax", b)):
            spec.pop(nm, None)
            if maybe(rng, 0.7):
                spec[nm] = pick(rng, round(v, 6), int(np.floor(v)) if v < 0 else int(np.ceil(v)))
    if "d" in limits and base != "sixdof" and maybe(rng, 0.25):
        b = float(np.median(np.maximum(fr.mag(np.clip(x0, fr.xmin, fr.xmax), arr(gen_u(rng, fr))), 1e-3))) * logu(rng, 0.3, 3)
        for nm, v in (("dmin", -b), ("dmax", b)):
            spec.pop(nm, None)
            if maybe(rng, 0.7):
                spec[nm] = pick(rng, round(v, 9), round(v, 9), -1 if v < 0 else 1)
    spec["umax"] = [float(v) if np.isfinite(v) else 1.0 for v in fr.umax]
    spec["umin"] = [float(v) if np.isfinite(v) else -1.0 for v in fr.umin]
    lr = make_ref(spec)
    if base in ("dub2",):
        x0[3] = abs(x0[3])
    spec["x0"] = np.clip(x0, lr.xmin, lr.xmax).tolist()
    return spec


def libdyn_ref(spec):
    r = REFS[spec["base"]](**dict(spec["kw"], **spec.get("wheel", {})))
    if spec["base"] == "dub2":
        r.xmin[:], r.xmax[:] = -INF, INF
    if spec["base"] == "dub3":
        r.xmin[:], r.xmax[:] = -INF, INF
        r.g = spec["g"]
    if spec["base"] in ("dub2", "dub3"):
        r.wrap = {}
    for name, dst in (("xmin", r.xmin), ("xmax", r.xmax), ("dmin", r.dmin), ("dmax", r.dmax)):
        if spec.get(name) is not None:
            v = spec[name]
            dst[:] = [(-INF if name.endswith("min") else INF) if q is None else q for q in v] if isinstance(v, list) else v
    if spec.get("wrap"):
        r.wrap = {i: c for i, c in enumerate(spec["wrap"]) if c is not None}
    r.umin[:], r.umax[:] = spec["umin"], spec["umax"]
    r.saturating = lambda x, u, h: r.limited
    return r


def build_libdyn_dynamics(spec):
    b = spec["base"]
    kw = {"integration_method": spec["method"]}
    for k in ("m", "n", "damping", "inertia", "body_frame_thrust", "ang_acc_limit", "ang_vel_limit"):
        if k in spec["kw"]:
            kw[k] = spec["kw"][k]
    if b == "sixdof":
        if type(kw.get("body_frame_thrust")) is int:
            kw["body_frame_thrust"] = np.bool_(kw["body_frame_thrust"])
        if "inertia" in kw:
            kw["inertia_matrix"] = given(np.diag(arr(kw.pop("inertia"))).copy())
        if spec["kw"].get("limform") == "array":
            for k in ("ang_acc_limit", "ang_vel_limit"):
                kw[k] = given(arr(kw[k]))
    if b.startswith("int"):
        kw["mode"] = b[3] + "d"
    if b == "dub3":
        kw["g"] = spec["g"]
    if spec["method"] == "RK45_JAX":
        kw["use_jax"] = True
    if sampling(spec):
        kw["trajectory_samples"] = sampling(spec)
    for name, a, sg in (("xmin", "state_min", -1), ("xmax", "state_max", 1), ("dmin", "state_dot_min", -1), ("dmax", "state_dot_max", 1)):
        if spec.get(name) is not None:
            kw[a] = _lim_arg(spec[name], sg)
    if spec.get("wrap"):
        kw["angle_wrap_centers"] = given(np.array(spec["wrap"], dtype=float))
    cls = {"cwh": point_model.CWHDynamics, "dub2": sdub.Dubins2dDynamics, "dub3": sdub.Dubins3dDynamics, "rot2d": rotational_model.CWHRotation2dDynamics,
           "sixdof": sixdof_model.SixDOFDynamics, "sun": sun_model.SunDynamics}.get(b, sint.IntegratorDynamics)
    return cls(**kw)


def build_libdyn(spec, name="e"):
    r = make_ref(spec)
    return ArrayEntity(build_libdyn_dynamics(spec), spec["x0"], r.nu, umin=given(arr(spec["umin"])), umax=given(arr(spec["umax"])), names=r.controls, name=name)


def neutral(spec, ref):
    return arr(spec["default"]) if spec.get("default") else np.zeros(ref.nu)


def make_ref(spec):
    if spec["kind"] == "custom":
        r = LinRef(spec["A"], spec["B"]) if spec["model"] == "lin" else {"pend": PendRef, "gen": GenRef}[spec["model"]](spec["k"], spec["c"])
        return r.configure(spec)
    if spec["kind"] == "libdyn":
        return libdyn_ref(spec)
    return REFS[spec["kind"]](**spec["kw"])


INIT_NAMES = {
    "cwh": ("x", "y", "z", "x_dot", "y_dot", "z_dot"), "rot2d": ("x", "y", "theta", "x_dot", "y_dot", "wz"),
    "sixdof": ("x", "y", "z", "q1", "q2", "q3", "q4", "x_dot", "y_dot", "z_dot", "wx", "wy", "wz"),
    "dub2": ("x", "y", "heading", "v"), "dub3": ("x", "y", "z", "heading", "gamma", "roll", "v"),
    "int1": ("x", "xdot"), "int2": ("x", "y", "xdot", "ydot"), "int3": ("x", "y", "z", "xdot", "ydot", "zdot"), "sun": ("theta",)}


def entity_kwargs(spec, **extra):
    kw = dict(spec["kw"])
    if spec["kind"] == "sixdof":
        if "inertia" in kw:
            J = np.diag(np.array(kw.pop("inertia"), dtype=float))
            kw["inertia_matrix"] = given(np.matrix(J) if kw.get("matrix") == "matrix" else J)
        kw.pop("matrix", None)
        form = kw.pop("limform", "scalar")
        if form == "array":
            for k in ("ang_acc_limit", "ang_vel_limit"):
                kw[k] = given(np.array(kw[k], dtype=float))
        elif form == "list":
            for k in ("ang_acc_limit", "ang_vel_limit"):
                kw[k] = list(kw[k])
        if type(kw.get("body_frame_thrust")) is int:
            kw["body_frame_thrust"] = np.bool_(kw["body_frame_thrust"])
    kw["integration_method"] = spec["method"]
    if spec["method"] == "RK45_JAX" or spec.get("jax"):
        kw["use_jax"] = True
    if sampling(spec):
        kw["trajectory_samples"] = sampling(spec)
    kw.update(extra)
    return kw


def build(spec, name="e", **extra):
    """The real entity, started at spec['x0'] through its documented initial conditions."""
    if spec["kind"] == "custom":
        return build_custom(spec, name, **extra)
    if spec["kind"] == "libdyn":
        return build_libdyn(spec, name)
    kw = entity_kwargs(spec, **extra)
    if "x0" in spec:
        kw.update(dict(zip(INIT_NAMES[spec["kind"]], spec["x0"])))
    cls = CLS[spec["kind"]]
    if "x0" in spec and zlib.crc32(repr(spec["x0"]).encode()) % 7 == 0:
        cls = own_class(cls)
    return cls(name=name, **kw)


def own_class(cls):
    """A user's class derived from a library one, changing nothing."""
    if cls not in OWN:
        OWN[cls] = type("Own" + cls.__name__, (cls, ), {"__doc__": "Derived."})
    return OWN[cls]


OWN = {}


def gen_u(rng, ref, mode=None):
    """Random in-limit control."""
    mode = mode or pick(rng, "rand", "rand", "corner", "zero", "axis", "rand")
    lo = np.where(np.isfinite(ref.umin), ref.umin, -2.0)
    hi = np.where(np.isfinite(ref.umax), ref.umax, 2.0)
    if mode == "zero":
        return [0.0] * ref.nu
    if mode == "corner":
        return [float(hi[i] if maybe(rng, 0.5) else lo[i]) for i in range(ref.nu)]
    u = rng.uniform(lo, hi)
    if mode == "axis" and ref.nu:
        k = int(rng.integers(ref.nu))
        u = np.where(np.arange(ref.nu) == k, u, 0.0)
    if maybe(rng, 0.07):  # faint
        u = np.clip(u * logu(rng, 1e-8, 1e-1), lo, hi)
    return [float(v) for v in u]


def gen_h(rng, kind, long_p=0.15):
    """Random step length, mostly in the range used for control, sometimes long or tiny."""
    if isinstance(kind, dict):
        if kind["kind"] == "custom":
            return gen_custom_h(rng, kind)
        kind = kind.get("base", kind["kind"])
    r = rng.random()
    hi = {"dub2": 8, "dub3": 8, "int1": 10, "int2": 10, "int3": 10}.get(kind, 30)
    if r < long_p:
        return round(logu(rng, hi, 10 * hi), 9)
    if r < long_p + 0.1:
        return pick(rng, 1.0, 0.1, 0.5, 1, 2, 5.0)
    if r < long_p + 0.2:
        return round(logu(rng, 1e-5, 1e-2), 12)
    return round(logu(rng, 1e-2, hi), 9)


def arr(v):
    return np.array(v, dtype=float)


def state_of(e):
    return np.array(e.state, dtype=float)
