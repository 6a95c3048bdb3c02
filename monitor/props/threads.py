"""C33: concurrent stepping of distinct entities, under controlled and free schedules, against solo runs."""
import hashlib
import os
import sys
import threading
import warnings

import numpy as np

import safe_autonomy_dynamics

from ..core import Inconclusive
from ..kinds import KINDS, METHODS, arr, build, gen, gen_custom, gen_h, gen_libdyn, gen_u, make_ref, maybe, pick

N = {"quick": 784, "thorough": 6000}
WATCHDOG = 300
ROOT = os.path.dirname(os.path.abspath(safe_autonomy_dynamics.__file__)) + os.sep
READ = ("position", "velocity", "acceleration", "quaternion", "angular_velocity", "wx", "wz", "heading", "v", "x_dot", "theta")


def make(rng, i, tier):
    ents = []
    pool = [pick(rng, *KINDS, "custom", "libdyn", "sun") for _ in range(int(rng.integers(1, 4)))]
    if maybe(rng, .2):
        pool = ["custom"]
    jax_ok = i % 60 == 7
    for _ in range(int(rng.integers(2, 6))):
        kind = pick(rng, *pool)
        if ents and maybe(rng, 0.35):
            s = dict(ents[int(rng.integers(len(ents)))]["spec"])
        elif kind == "custom":
            s = gen_custom(rng, method=pick(rng, "RK45", "Euler"), jax=False)
        elif kind == "libdyn":
            s = gen_libdyn(rng, method=pick(rng, "RK45", "Euler"))
        elif kind == "sun":
            s = gen(rng, "sun", method=pick(rng, "RK45", "Euler"))
        else:
            s = gen(rng, kind, method=pick(rng, *METHODS[kind][:2]))
            if maybe(rng, 0.25) and s["method"] == "RK45":
                s["samples"] = int(rng.integers(2, 6))
        if jax_ok and not ents:
            s = gen(rng, "rot2d", method="RK45_JAX")
        ref = make_ref(s)
        steps = []
        for _ in range(int(rng.integers(2, 7))):
            steps.append({"h": min(gen_h(rng, s if s["kind"] in ("custom", "libdyn") else s["kind"], 0.02), 20), "u": gen_u(rng, ref),
                          "form": pick(rng, "array", "array", "dict", "none", "list")})
            if maybe(rng, .1):
                steps[-1]["u"] = (arr(steps[-1]["u"]) * 5).tolist()
        ents.append({"spec": s, "steps": steps})
    return {"ents": ents, "mode": pick(rng, "controlled", "controlled", "controlled", "free"), "p": pick(rng, 0.02, 0.1, 0.3, 0.6), "seed": int(rng.integers(1 << 31)),
            "inside": maybe(rng, .3)}


class Log:
    """One entity's life: states, derivatives, controls and readings after every step."""

    def __init__(self, ent, name):
        self.spec, self.steps, self.name = ent["spec"], ent["steps"], name
        self.names = make_ref(self.spec).controls
        self.e = None
        self.rows = []
        self.error = None

    def build(self, hook=None):
        kw = {"hook": hook} if hook is not None and self.spec["kind"] == "custom" and self.spec.get("model") in ("pend", "gen") else {}
        self.e = build(self.spec, name=self.name, **kw)

    def look(self):
        e = self.e
        row = [np.array(e.state, float)]
        sd = e.state_dot
        row.append(None if sd is None else np.array(sd, float))
        for n in READ:
            try:
                v = getattr(e, n)
                v = getattr(v, "magnitude", v)
                row.append(None if v is None else np.array(v, float))
            except (AttributeError, NotImplementedError):
                row.append(None)
        tr = getattr(e.dynamics, "trajectory", None)
        row.append(None if tr is None else np.array(tr, float))
        self.rows.append(row)

    def run(self, hook=None, order=None):
        try:
            if self.e is None:
                self.build(hook)
            self.look()
            for k, s in enumerate(self.steps):
                u = arr(s["u"])
                form = s["form"]
                if self.spec["kind"] == "sun" or not len(u):
                    form = "none"
                if form == "dict" and self.spec["kind"] in ("custom", "libdyn") and not self.spec.get("names"):
                    form = "array"
                a = {"array": u, "list": list(u), "none": None, "dict": dict(zip(self.names, s["u"]))}[form]
                self.e.step(s["h"], a)
                if order is not None:
                    order.append((self.name, k))
                self.look()
        except Exception as ex:  # pylint: disable=broad-except
            self.error = repr(ex)[:300]


class Scheduler:
    """One token; at every executed line of the library the holder may hand it to another thread, as the seed decides."""

    def __init__(self, n, seed, p):
        self.rng = np.random.default_rng(seed)
        self.p = p
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.ticks = 0
        self.switches = 0
        self.hash = hashlib.sha1()
        self.draws = []
        self.budget = 4000

    def wait(self, me):
        last = -1
        while not self.sem[me].acquire(timeout=0.5):
            if self.ticks == last:  # the holder is blocked (e.g. on a lock this thread holds): run anyway
                return
            last = self.ticks

    def hand(self, me):
        others = sorted(self.alive - {me})
        if not others:
            return
        k = others[int(self.rng.integers(len(others)))]
        self.switches += 1
        self.sem[k].release()
        if me in self.alive:
            self.wait(me)

    def tick(self, me, frame):
        self.ticks += 1
        if self.switches >= self.budget:
            return
        if not self.draws:
            self.draws = (self.rng.random(256) < self.p).tolist()
        if self.draws.pop():
            self.hash.update(f"{me}:{frame.f_code.co_name}:{frame.f_lineno};".encode())
            self.hand(me)

    def thread(self, me, body):
        def local(frame, event, _arg):
            if event == "line":
                self.tick(me, frame)
            return local

        def tracer(frame, _event, _arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        self.wait(me)
        sys.settrace(tracer)
        try:
            body()
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            self.hand(me)


def same(a, b):
    return (a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and np.array_equal(a, b, equal_nan=True))


def run(case, ctx):
    solo = [Log(e, f"e{k}") for k, e in enumerate(case["ents"])]
    for s in solo:
        s.run()
        ctx.check(s.error is None, "stepping an entity alone fails", error=s.error, kind=s.spec["kind"])
    both = [Log(e, f"e{k}") for k, e in enumerate(case["ents"])]
    jax = any(e["spec"]["method"] == "RK45_JAX" for e in case["ents"])
    order = []
    hooked = []

    def hook():
        hooked.append(1)

    if not case["inside"]:
        for b in both:
            b.build(hook)
    threads = []
    old = sys.getswitchinterval()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if case["mode"] == "controlled" and not jax:
                sch = Scheduler(len(both), case["seed"], case["p"])
                threads = [threading.Thread(target=sch.thread, args=(k, lambda b=b: b.run(hook, order)), daemon=True) for k, b in enumerate(both)]
                for t in threads:
                    t.start()
                sch.sem[0].release()
            else:
                sch = None
                gate = threading.Barrier(len(both))
                sys.setswitchinterval(1e-6)

                def go(b):
                    gate.wait()
                    b.run(hook, order)
                threads = [threading.Thread(target=go, args=(b, ), daemon=True) for b in both]
                for t in threads:
                    t.start()
            for t in threads:
                t.join(120)
                if t.is_alive():
                    raise Inconclusive("a thread did not finish")
        finally:
            sys.setswitchinterval(old)
    for s, b in zip(solo, both):
        ctx.check(b.error == s.error, "stepping concurrently fails where stepping alone does not", solo=s.error, concurrent=b.error, kind=s.spec["kind"])
        ctx.check(len(s.rows) == len(b.rows), "a concurrent run recorded another number of steps")
        for k, (r, q) in enumerate(zip(s.rows, b.rows)):
            for j, (v, w) in enumerate(zip(r, q)):
                if not same(v, w):
                    name = (("state", "derivative") + READ + ("trajectory", ))[j]
                    ctx.check(False, "an entity stepped concurrently differs from the same entity stepped alone", reading=name, step=k, solo=v, concurrent=w,
                              kind=s.spec["kind"], entity=s.name)
            ctx.obs("log rows compared")
    if sch is not None:
        ctx.obs("forced switches", sch.switches)
        ctx.obs("library lines scheduled", sch.ticks)
        ctx.obs("controlled schedules")
        ctx.seen("line-level interleavings", sch.hash.hexdigest()[:16])
    else:
        ctx.obs("free-running schedules")
    ctx.seen("step-level interleavings", hashlib.sha1(repr(order).encode()).hexdigest()[:16])
    ctx.seen("entity kinds stepped together", "+".join(sorted(s.spec["kind"] for s in solo)))
    flips = sum(1 for a, b in zip(order, order[1:]) if a[0] != b[0])
    ctx.obs("step-level alternations", flips)
    ctx.obs("calls into user models", len(hooked))
    ctx.nontrivial()
