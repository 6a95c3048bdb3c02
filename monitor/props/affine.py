"""C12: published control-affine terms."""
import numpy as np

from ..kinds import KINDS, arr, build, gen, gen_custom, gen_u, gen_state, make_ref, maybe, pick, state_of, logu

N = {"quick": 2600, "thorough": 16000}


def make(rng, i, tier):
    kinds = KINDS + ("custom", "custom", "rot2d")
    kind = kinds[i % len(kinds)]
    if kind == "custom":
        spec = gen_custom(rng, model=pick(rng, "lin", "pend"), method="RK45", limits=pick(rng, "none", "x"), jax=i % 110 == 8)
    else:
        spec = gen(rng, kind)
        if kind == "rot2d" and i % 4 == 0:
            spec["jax"] = True
    ref = make_ref(spec)
    pts = []
    for _ in range(4):
        if kind == "custom":
            x = rng.uniform(np.maximum(ref.xmin, -5), np.maximum(np.minimum(ref.xmax, 5), np.maximum(ref.xmin, -5)))
        else:
            x = arr(gen_state(rng, spec))
        lo, hi = np.maximum(ref.xmin, -1e9), np.minimum(ref.xmax, 1e9)
        fin = np.isfinite(ref.xmin) & np.isfinite(ref.xmax)
        x = np.where(fin, np.clip(x, lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo)), x)
        pts.append({"x": x.tolist(), "u": gen_u(rng, ref), "v": gen_u(rng, ref), "t": float(rng.uniform(0, 100))})
    return {"spec": spec, "pts": pts, "h": logu(rng, 1e-4, 1e-3)}


def run(case, ctx):
    spec = case["spec"]
    ref = make_ref(spec)
    e = build(spec)
    d = e.dynamics
    jax = bool(spec.get("jax"))
    rel = 1e-5 if jax else (3e-6 if ref.f32 else 1e-12)
    for p in case["pts"]:
        x, u, v, t = arr(p["x"]), arr(p["u"]), arr(p["v"]), p["t"]
        if np.any(x <= ref.xmin) or np.any(x >= ref.xmax):
            continue
        f = np.asarray(d.state_transition_system(x.copy()), dtype=float)
        g = np.asarray(d.state_transition_input(x.copy()), dtype=float)
        if f.shape != (ref.nx, ) or g.shape != (ref.nx, ref.nu):
            ctx.check(False, "published terms have the wrong shape", drift=f.shape, input=g.shape)
        mag = ref.mag(x, u) + ref.mag(x, v) + np.abs(g) @ (np.abs(u) + np.abs(v)) + np.abs(f)
        tol = rel * mag + 1e-12 + (rel * np.max(mag) if jax else 0)
        for w in (u, v, u - v, 0 * u):
            dot = np.asarray(d.compute_state_dot(t, x.copy(), w.copy()), dtype=float)
            # where a rate limit is active the derivative is the limited one
            ctx.close(dot, np.clip(f + g @ w, ref.dmin, ref.dmax), tol, "drift plus input terms do not equal the derivative", state=x, control=w)
            dot0 = np.asarray(d.compute_state_dot(0.0, x.copy(), w.copy()), dtype=float)
            ctx.close(dot, dot0, 1e-12 * mag, "the derivative depends on absolute time", t=t)
            ctx.close(f + g @ w, ref.f(x, w), tol + 1e-9 * mag, "published terms are not the documented model's", state=x, control=w)
        # against the motion actually realised by a short step (no limits nearby)
        h = case["h"]
        a = build(spec)
        a.state = x
        uc = ref.clip_u(u)
        a.step(h, u)
        reach = 10 * h * ref.mag(x, uc)
        if np.any(x - reach <= ref.xmin) or np.any(x + reach >= ref.xmax) or np.any(ref.mag(x, uc) >= ref.dmax) or np.any(-ref.mag(x, uc) <= ref.dmin):
            continue
        x1 = state_of(a)
        if np.any(x1 <= ref.xmin) or np.any(x1 >= ref.xmax):
            continue

        def rhs(y):
            return np.asarray(d.state_transition_system(y.copy()), dtype=float) + np.asarray(d.state_transition_input(y.copy()), dtype=float) @ uc

        k1 = rhs(x)  # the published terms, integrated over the step
        k2 = rhs(x + h / 2 * k1)
        k3 = rhs(x + h / 2 * k2)
        mid = x + h / 2 * k3
        fm = (k1 + 2 * k2 + 2 * k3 + rhs(x + h * k3)) / 6
        dx = x1 - x
        for i, c in ref.wrap.items():
            dx[i] = (dx[i] + np.pi) % (2 * np.pi) - np.pi
        m2 = ref.mag(x, uc) + ref.mag(mid, uc)
        eps = 2e-7 if jax else 1e-14
        tol = (1e-4 + (2 * h if jax else 0)) * m2 + eps * np.abs(x) * 8 / h + 1e-7 + (1e-5 * np.max(m2) + 1e-6 / h if jax else 0)
        if jax:  # single precision wrapping rounds to the resolution of a full turn about its centre
            for i, c in ref.wrap.items():
                tol[i] += (2e-6 + 5e-7 * abs(c)) / h
        ctx.close(dx / h, fm, tol,
                  "published terms do not predict the motion over a short step", state=x, control=uc, h=h)
        ctx.obs("short steps compared")
        ctx.obs("points " + spec["kind"])
    if spec["kind"] == "custom" and spec["model"] == "lin":
        A, B = arr(spec["A"]), arr(spec["B"])
        x = np.ones(len(A))
        ctx.close(np.asarray(d.A, float), A, (1e-6 if jax else 0) * np.abs(A), "published A is not the given one")
        ctx.close(np.asarray(d.B, float), B, (1e-6 if jax else 0) * np.abs(B), "published B is not the given one")
        ctx.close(d.state_transition_input(x), B, (1e-6 if jax else 0) * np.abs(B), "published input matrix is not B")
        ctx.close(d.state_transition_system(x), A @ x, (1e-6 if jax else 1e-13) * (np.abs(A) @ x) + 1e-15, "published drift is not A x")
        ctx.obs("linear models")
    ctx.nontrivial()
