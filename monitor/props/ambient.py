"""C36: the library inside its process."""
import contextlib
import decimal
import gc
import io
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import types
import warnings

import numpy as np

from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
from safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 import clf16
from safe_autonomy_dynamics.external.aerobench.util import Euler, SafetyLimits, SafetyLimitsVerifier, extract_single_result, get_state_names, printmat

from ..core import Inconclusive, Violation
from ..kinds import KINDS, METHODS, arr, build, gen, gen_custom, gen_custom_h, gen_h, gen_libdyn, gen_u, make_ref, maybe, pick
from ..world import world
from .threads import Scheduler

N = {"quick": 1500, "thorough": 9000}
PROCESS_EVERY = {"quick": 120, "thorough": 60}
WATCHDOG = 240
MODULES = ("base_models", "utils", "integrators", "dubins", "cwh", "cwh.point_model", "cwh.rotational_model", "cwh.sixdof_model", "cwh.sun_model",
           "external.aerobench.util", "external.aerobench.controlled_f16", "external.aerobench.lowlevel.clf16")


def gen_life(rng, kind=None, steps=None):
    kind = kind or pick(rng, *(KINDS + ("custom", "libdyn", "sun", "f16", "tools", "euler")))
    if kind == "f16":
        return {"f16": pick(rng, "stevens", "morelli"), "seed": int(rng.integers(1 << 30)), "k": int(rng.integers(1, 12))}
    if kind == "tools":
        return {"tools": pick(rng, "stevens", "morelli"), "seed": int(rng.integers(1 << 30))}
    if kind == "euler":
        return {"euler": round(float(rng.uniform(0.01, 0.3)), 6), "y0": rng.uniform(-1, 1, 3).tolist()}
    if kind == "custom":
        spec = gen_custom(rng, jax=False)
    elif kind == "libdyn":
        spec = gen_libdyn(rng)
    elif kind == "sun":
        spec = gen(rng, "sun")
    else:
        m = pick(rng, *METHODS[kind])
        if m == "RK45_JAX" and maybe(rng, 0.6):
            m = "RK45"
        spec = gen(rng, kind, method=m)
    ref = make_ref(spec)
    n = steps or int(rng.integers(1, 6))
    return {"spec": spec, "steps": [[gen_custom_h(rng, spec) if kind == "custom" else min(gen_h(rng, spec if kind == "libdyn" else kind, 0.03), 25), gen_u(rng, ref)] for _ in range(n)],
            "over": maybe(rng, 0.2), "named": maybe(rng, 0.4)}


def make(rng, i, tier):
    e = PROCESS_EVERY[tier]
    if i % e < 8 and i % (2 * e) < e:
        return {"oracle": "process", "lives": [gen_life(rng) for _ in range(14)], "hashseed": int(rng.integers(1, 4000)), "optimise": maybe(rng, 0.4),
                "first": [MODULES[int(k)] for k in rng.permutation(len(MODULES))[:int(rng.integers(1, 5))]], "tz": pick(rng, "UTC", "Asia/Tokyo", "America/New_York"),
                "locale": pick(rng, "C", "C.UTF-8", "POSIX")}
    if i % 5 == 4:
        k = pick(rng, *(KINDS + ("custom", "libdyn", "sun")))
        life = gen_life(rng, k, 3)
        if life["spec"]["method"] == "RK45_JAX":
            life = gen_life(rng, "cwh", 3)
        life["over"] = False
        return {"oracle": "growth", "life": life}
    if i % 10 == 3:
        lives = [gen_life(rng, pick(rng, *(KINDS + ("custom", "libdyn", "sun", "f16"))), int(rng.integers(1, 4))) for _ in range(int(rng.integers(1, 4)))]
        lives = [gen_life(rng, "cwh", 2) if li.get("spec", {}).get("method") == "RK45_JAX" else li for li in lives]
        return {"oracle": "together", "lives": lives + lives[:1], "seed": int(rng.integers(1 << 31)), "p": pick(rng, 0.05, 0.2, 0.5)}
    return {"oracle": pick(rng, "ambient", "ambient", "perturbed"), "life": gen_life(rng), "perturb": [pick(rng, *PERTURB) for _ in range(int(rng.integers(1, 5)))],
            "k": int(rng.integers(1 << 30))}


class TooMuch(Exception):
    """A step takes too long to be worth it."""


def tohex(v):
    return np.asarray(v, float).tobytes().hex()


def live(life):
    """Everything observed of one life, bit for bit."""
    out = []
    if "f16" in life:
        rng = np.random.default_rng(life["seed"])
        llc = LowLevelController()
        x = np.concatenate([llc.xequil, np.zeros(3)]) + rng.uniform(-1, 1, 16) * np.array([50, .05, .02, .3, .1, 2, .1, .05, .05, 1e3, 1e3, 500, 5, .1, .1, .1])
        for _ in range(life["k"]):
            o = controlled_f16(x, np.zeros(4), llc, life["f16"])
            out.append(tohex(o[0]) + tohex(o[1]) + tohex(o[2:]))
            x = x + 0.02 * o[0]
        return out
    if "tools" in life:
        return tools(life)
    if "euler" in life:
        s = Euler(lambda t, y: -y * np.array([1, 2, 3]) + t, 0.0, arr(life["y0"]), 1.0, step=life["euler"])
        while s.status == "running":
            s.step()
            out.append(tohex(s.t) + tohex(s.y))
        return out
    e = build(life["spec"])
    if life["spec"]["kind"] == "libdyn":  # limits chosen at random may make a stiff model of it
        n, f = [0], e.dynamics._compute_state_dot

        def counted(*a):
            n[0] += 1
            if n[0] > 20000:
                raise TooMuch
            return f(*a)
        e.dynamics._compute_state_dot = counted
    names = getattr(e, "control_map", None) or {}
    for h, u in life["steps"]:
        a = arr(u) * (3 if life.get("over") else 1)
        if life.get("named") and names and len(names) == len(a):
            a = {k: float(a[j]) for k, j in names.items()}
        try:
            e.step(h, a)
        except TooMuch:
            out.append("stiff")
            break
        out.append(tohex(e.state) + tohex(e.state_dot))
        if life["spec"]["kind"] not in ("custom", "libdyn", "sun"):
            out.append(tohex(e.position) + tohex(e.velocity) + tohex(e.orientation.as_quat()))
            if hasattr(e, "quaternion"):
                out.append(tohex(e.quaternion) + tohex(e.angular_velocity))
            out.append(str(e == e) + str(e != e) + str(e == build(life["spec"])))  # pylint: disable=comparison-with-itself
            if hasattr(e, "x_with_units"):
                out.append(str(e.x_with_units.units) + tohex(e.x_with_units.magnitude))
    return out


def tools(life):
    """Trimming, printing, extracting and verifying."""
    rng = np.random.default_rng(life["seed"])
    out = []
    llc = LowLevelController()
    orient = int(rng.integers(1, 5))
    x, u = np.array([500 + 100 * rng.random()] + [0.0] * 10 + [1000.0, 0.0]), np.zeros(4)
    s = rng.uniform(-0.1, 0.3, 7 if orient == 3 else 3)
    out.append(tohex(clf16(s, x, u, (0.05, np.sin(0.05), 0, 0, 0.1, 0, 1, 0, 0.1, False, True, orient), life["tools"])) + tohex(x) + tohex(u))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m = rng.normal(size=(int(rng.integers(1, 5)), int(rng.integers(1, 4)))) * 10.0 ** rng.integers(-9, 9)
        printmat(m, "matrix", " ".join(f"row{k}" for k in range(m.shape[0])) if rng.random() < 0.7 else [], " ".join(f"col{k}" for k in range(m.shape[1])))
    out.append(buf.getvalue())
    n, t = 2, int(rng.integers(2, 6))
    res = {"status": "finished", "times": list(range(t)), "modes": ["a"] * t, "states": rng.normal(size=(t, 16 * n)), "xd_list": rng.normal(size=(t, n, 16)),
           "ps_list": rng.normal(size=(t, n)), "Nz_list": rng.normal(size=(t, n)), "Ny_r_list": rng.normal(size=(t, n)), "u_list": rng.normal(size=(t, n, 7))}
    one = extract_single_result(res, int(rng.integers(n)), llc)
    out.append(tohex(one["states"]) + tohex(one["xd_list"]) + tohex(one["u_list"]) + str(get_state_names()))
    # a run within wide limits: the verdict on others is an assertion, which an optimising interpreter drops
    SafetyLimitsVerifier(SafetyLimits(altitude=(-9, 9), Nz=(-9, 9), v=(-9, 9), alpha=(-9, 9), psMaxAccelDeg=900, betaMaxDeg=900), llc).verify(one)
    return out


PERTURB = ("seed", "print", "strict", "warn", "cwd", "env", "decimal", "gc", "trace", "recursion", "thread", "time")


@contextlib.contextmanager
def perturbed(what, k, tmp):
    """A process differing in ways no result may depend on."""
    state = np.random.get_state()
    rs = random.getstate()
    old = np.get_printoptions()
    err = np.geterr()
    cwd = os.getcwd()
    dec = decimal.getcontext().copy()
    en = gc.isenabled()
    rec = sys.getrecursionlimit()
    clocks = (time.time, time.perf_counter, time.monotonic)
    with warnings.catch_warnings():
        try:
            for w in what:
                if w == "seed":
                    np.random.seed(k % (1 << 31))
                    random.seed(k)
                elif w == "print":
                    np.set_printoptions(precision=2, threshold=2, suppress=True)
                elif w == "strict":
                    np.seterr(divide="raise", over="raise", invalid="raise")
                elif w == "warn":
                    warnings.simplefilter("error")
                    warnings.simplefilter("ignore", PendingDeprecationWarning)  # np.matrix, which users may pass
                elif w == "cwd":
                    os.chdir(tmp)
                elif w == "env":
                    os.environ["VMON_PERTURBED"] = "1"
                elif w == "decimal":
                    decimal.getcontext().prec = 3
                elif w == "gc":
                    gc.disable()
                elif w == "trace":
                    sys.settrace(lambda *a: None)
                elif w == "time":
                    time.time, time.perf_counter, time.monotonic = (lambda: 4e9 + k % 1000), (lambda: 1e6), (lambda: 1e6)
                elif w == "recursion":
                    sys.setrecursionlimit(rec + 777)
            yield
        finally:
            sys.settrace(None)
            time.time, time.perf_counter, time.monotonic = clocks
            np.random.set_state(state)
            random.setstate(rs)
            np.set_printoptions(**{a: b for a, b in old.items() if a != "legacy" or b})
            np.seterr(**err)
            os.chdir(cwd)
            os.environ.pop("VMON_PERTURBED", None)
            decimal.setcontext(dec)
            if en:
                gc.enable()
            sys.setrecursionlimit(rec)


FIRST = {}
STABLE = ("NumPy's error handling", "NumPy's print options", "the environment", "JAX's precision setting", "the units registry", "the logging set-up",
          "the signal handlers", "the recursion limit", "the import path", "the decimal context", "the locale", "garbage collection", "the hooks", "the umask", "NumPy, SciPy or the built-ins", "the thread switching",
          "NumPy's buffer size", "the processors used", "the resource limits", "the network timeout")


def run(case, ctx):
    o = case["oracle"]
    if not FIRST:
        w = world()
        FIRST.update({k: w[k] for k in STABLE})
    if o == "process":
        return process(case, ctx)
    if o == "growth":
        return growth(case, ctx)
    if o == "together":
        return together(case, ctx)
    life = case["life"]
    with tempfile.TemporaryDirectory(prefix="vmon_amb_") as tmp:
        cwd = os.getcwd()
        os.chdir(tmp)
        try:
            if "spec" in life and life["spec"]["method"] == "RK45_JAX":
                live(life)  # compilation starts threads of its own
            buf, err = io.StringIO(), io.StringIO()
            before = world()
            before.update(FIRST)  # also what an earlier history in this process changed
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
                a = live(life)
            after = world()
            for k in before:
                ctx.check(before[k] == after[k], "using the library changed " + k, before=str(before[k])[:300], after=str(after[k])[:300])
            ctx.check(buf.getvalue() == "" and (err.getvalue() == "" or life.get("over")), "using the library wrote to the standard output or error", out=buf.getvalue()[:300], err=err.getvalue()[:300])
            ctx.obs("process-wide settings compared", len(before))
            if o == "perturbed":
                what = [w for w in case["perturb"] if not (w == "warn" and life.get("over"))]
                with perturbed(what, case["k"], tmp):
                    if "thread" in what:
                        box = []
                        t = threading.Thread(target=lambda: box.append(live(life)))
                        t.start()
                        t.join()
                        ctx.check(len(box) == 1, "a history lived in another thread failed")
                        b = box[0]
                    else:
                        b = live(life)
                ctx.obs("perturbed lives")
                for w in what:
                    ctx.obs("perturbed " + w)
            else:
                b = live(life)
            same(ctx, a, b, "the same history gave different results in a differing process state", case)
        finally:
            os.chdir(cwd)
    ctx.nontrivial()


def same(ctx, a, b, what, case):
    ctx.obs("readings compared bit for bit", len(a))
    if a != b:
        k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        raise Violation(what, reading=k, perturb=case.get("perturb"), first=[np.frombuffer(bytes.fromhex(v), float).tolist() if v and all(c in "0123456789abcdef" for c in v) and len(v) % 16 == 0 else v
                                                                             for v in (a[k:k + 1] + b[k:k + 1])])


def together(case, ctx):
    """Lives lived at the same time, whose settings taken and given back could overlap, leave the process as it was too."""
    alone = [live(li) for li in case["lives"]]
    there = [None] * len(alone)

    def go(k):
        there[k] = live(case["lives"][k])
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="vmon_amb_") as tmp:
        os.chdir(tmp)
        try:
            before = world()
            before.update(FIRST)
            sch = Scheduler(len(alone), case["seed"], case["p"])
            threads = [threading.Thread(target=sch.thread, args=(k, lambda k=k: go(k)), daemon=True) for k in range(len(alone))]
            for t in threads:
                t.start()
            sch.sem[0].release()
            for t in threads:
                t.join(100)
                if t.is_alive():
                    raise Inconclusive("a thread did not finish")
            after = world()
        finally:
            os.chdir(cwd)
    for k in before:
        ctx.check(before[k] == after[k], "using the library from several threads changed " + k, before=str(before[k])[:300], after=str(after[k])[:300])
    for a, b in zip(alone, there):
        ctx.check(b is not None, "a history lived next to others failed")
        same(ctx, a, b, "the same history gave different results next to others in other threads", case)
    ctx.obs("process-wide settings compared", len(before))
    ctx.obs("forced switches between lives", sch.switches)
    ctx.seen("interleavings of lives", sch.hash.hexdigest()[:16])
    ctx.nontrivial()


CHILD = """
import sys, json, importlib, warnings
import numpy, scipy.integrate, scipy.spatial.transform, scipy.linalg, scipy.optimize, pint, pydantic, typing_extensions
try:
    import jax, jax.numpy, jax.experimental.ode
except ImportError:
    pass
import monitor.world
d = json.load(sys.stdin)
before = monitor.world.world()
for m in d["first"]:
    importlib.import_module("safe_autonomy_dynamics." + m)
after = monitor.world.world()
changed = [k for k in before if before[k] != after[k] and k != "the open files"]
if changed:
    sys.exit("importing the library changed " + ", ".join(changed))
warnings.simplefilter("ignore")
from monitor.props.ambient import live
json.dump([live(l) for l in d["lives"]], sys.stdout)
"""


def process(case, ctx):
    """The same lives in a fresh interpreter, with other hash seed, import order, optimisation, time zone and order of lives."""
    here = [live(li) for li in case["lives"]]
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]), TZ=case["tz"], LC_ALL=case["locale"])
    order = list(range(len(here)))[::-1]
    with tempfile.TemporaryDirectory(prefix="vmon_amb_") as tmp:
        p = subprocess.run([sys.executable] + (["-O"] if case["optimise"] else []) + ["-c", CHILD], cwd=tmp, env=env, capture_output=True, text=True, timeout=200, check=False,
                           input=json.dumps({"first": case["first"], "lives": [case["lives"][k] for k in order]}))
        left = os.listdir(tmp)
    ctx.check(p.returncode == 0, "a fresh process could not live the same histories", err=p.stderr[-1500:], first=case["first"])
    ctx.check(left == [], "using the library left files behind", files=left)
    there = json.loads(p.stdout)
    for k, b in zip(order, there):
        same(ctx, here[k], b, "the same history gave different results in another process", case)
    ctx.obs("fresh processes")
    ctx.nontrivial()


def held(e):
    """Number and bytes of the objects an entity and the library's modules hold."""
    todo = [e] + [v.__dict__ for k, v in sys.modules.items() if k.startswith("safe_autonomy_dynamics") and v is not None]
    seen, size = set(), 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        size += sys.getsizeof(o, 0)
        if isinstance(o, type):
            if o.__module__.startswith("safe_autonomy_dynamics"):
                todo.extend(v for k, v in vars(o).items() if not k.startswith("__"))
        elif isinstance(o, types.FunctionType):
            todo.extend([o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__] if o.__module__ and o.__module__.startswith("safe_autonomy_dynamics") else [])
        elif not isinstance(o, (types.ModuleType, types.BuiltinFunctionType, str, int, float)) and type(o).__module__.split(".")[0] not in ("jax", "jaxlib", "pint"):
            todo.extend(gc.get_referents(o))
    return len(seen), size


def growth(case, ctx):
    """Memory does not grow with the number of steps."""
    life = case["life"]
    e = build(life["spec"])
    h, u = min(life["steps"][0][0], 0.5), arr(life["steps"][0][1])

    def live_on(n):
        for _ in range(n):
            e.step(h, u)
            e.state_dot  # pylint: disable=pointless-statement
    n = 40
    live_on(n)
    worst = []
    for _ in range(6):  # a leak shows in every window, a bounded cache fills up
        a = held(e)
        live_on(n)
        b = held(e)
        worst.append(((b[0] - a[0]) / n, (b[1] - a[1]) / n))
        if worst[-1][0] < 0.9 and worst[-1][1] < 8:
            break
    else:
        raise Violation("memory kept grows with every step", objects_and_bytes_per_step=worst, kind=life["spec"]["kind"], method=life["spec"]["method"])
    ctx.worst["objects kept per step"] = max(ctx.worst.get("objects kept per step", 0), round(worst[-1][0], 3))
    ctx.obs("steps watched for growth", n * len(worst))
    ctx.nontrivial()


