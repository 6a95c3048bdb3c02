"""Trace monitoring of entity sessions: drive a real entity and compare every step with its reference model."""
from __future__ import annotations

import warnings

import numpy as np

from .core import Violation
from .kinds import arr, build, gen_h, gen_u, make_ref, state_of


def gen_steps(rng, ref, kind, n, long_p=0.12, hold_p=0.3, hmax=None):
    """Random schedule [[h, u], ...] of in-limit controls; sometimes holding the previous control."""
    out = []
    u = None
    for _ in range(n):
        if u is None or rng.random() > hold_p:
            u = gen_u(rng, ref)
        h = gen_h(rng, kind, long_p)
        if hmax:
            h = min(h, hmax)
        out.append([h, u])
    return out


def step_quiet(e, h, action):
    """Step, returning the warnings raised."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        e.step(h, action)
    return w


def check_dot(ctx, ref, x1, u, sd, what, comps=None, method="RK45", **detail):
    """state_dot must be the limited right-hand side at x1 (either one-sided value where x1 is within rounding of a limit)."""
    sd = np.array(sd, dtype=float)
    if sd.shape != (ref.nx, ):
        raise Violation(what + ": shape", **{**detail, "shape": sd.shape})
    comps = range(ref.nx) if comps is None else comps
    rel = 2e-5 if method == "RK45_JAX" else (3e-6 if ref.f32 else 1e-7)
    xc = np.clip(x1, ref.xmin, ref.xmax)
    raw = np.clip(ref.f(xc, u), ref.dmin, ref.dmax)
    want = ref.lim(x1, u)
    mag = ref.mag(xc, u)
    if ref.wrap and method != "RK45_JAX":
        mag = mag + 0  # trig of wrapped angles differs by rounding only
    tol = rel * np.maximum(mag, np.abs(raw)) + 1e-10 + (1e-7 * np.max(mag) if method == "RK45_JAX" else 0)
    ctx.events["derivatives compared"] += 1
    for i in comps:
        opts = [want[i]]
        if np.isfinite(ref.xmin[i]) and abs(x1[i] - ref.xmin[i]) <= 2e-6 * max(1e-3, abs(ref.xmin[i])):
            opts += [raw[i], max(raw[i], 0.0)]
        if np.isfinite(ref.xmax[i]) and abs(x1[i] - ref.xmax[i]) <= 2e-6 * max(1e-3, abs(ref.xmax[i])):
            opts += [raw[i], min(raw[i], 0.0)]
        if not any(abs(sd[i] - o) <= tol[i] for o in opts):
            raise Violation(what, **{**detail, "component": ref.states[i], "actual": sd[i], "expected": opts, "tol": tol[i], "state": x1, "applied": u})


def expected_step(ref, x, u, h, method):
    """(expected state clipped and unwrapped, tolerance) for one step of the given method."""
    if method == "Euler":
        xe = np.clip(x + h * ref.lim(x, u), ref.xmin, ref.xmax)
        tol = ref.scale(x, xe, h, u) * (3e-6 if ref.f32 else 1e-10) + 1e-10
    else:
        xe = ref.exact(x, u, h)
        tol = ref.tolerance(x, u, h, xe, method)
    if ref.f32:  # wrapping rounds to the resolution of a full turn
        for i, c in ref.wrap.items():
            tol[i] += 1.5e-6 + 3e-7 * abs(c)
    return xe, tol


def run_session(case, ctx, comps=None, label="motion", dot=True, every=None):
    """Drive spec through steps; compare components comps of each step and derivative with the reference model."""
    spec = case["spec"]
    method = spec["method"]
    ref = make_ref(spec)
    e = build(spec)
    x = state_of(e)
    ctx.close(x, arr(spec["x0"]), 1e-6 * np.abs(spec["x0"]) + 1e-12, "initial state is not the given one", spec=spec)
    comps = list(range(ref.nx)) if comps is None else list(comps)
    for k, (h, u) in enumerate(case["steps"]):
        u = arr(u)
        uc = ref.clip_u(u)
        e.step(h, u.copy())
        x1 = state_of(e)
        if x1.shape != x.shape:
            raise Violation("state changed shape", before=x.shape, after=x1.shape)
        xe, tol = expected_step(ref, x, uc, h, method)
        ang = [j for j, i in enumerate(comps) if i in ref.wrap]
        ctx.close(x1[comps], xe[comps], tol[comps], f"{label} deviates from the model over a step", angles=ang, step=k, h=h, control=uc,
                  start=x, method=method)
        ctx.events["steps compared"] += 1
        ctx.events["steps " + spec["kind"] + " " + method] += 1
        if ref.saturating(x, uc, h):
            ctx.events["steps meeting a limit"] += 1
        if dot:
            check_dot(ctx, ref, x1, uc, e.state_dot, f"{label}: reported derivative is not the model's at the new state", comps, method,
                      step=k)
        if every is not None:
            every(e, ref, x, uc, h, x1, k)
        x = x1
    ctx.nontrivial()
    return e, ref
