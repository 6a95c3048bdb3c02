"""C31: extraction of one aircraft's results from a joint simulation."""
import numpy as np

from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
from safe_autonomy_dynamics.external.aerobench.util import StateIndex, extract_single_result, get_state_names

from ..kinds import maybe, pick

N = {"quick": 16000, "thorough": 60000}
KEYS = ("xd_list", "ps_list", "Nz_list", "Ny_r_list", "u_list")
INDEX = {"vt": "VT", "alpha": "ALPHA", "beta": "BETA", "phi": "PHI", "theta": "THETA", "psi": "PSI", "P": "P", "Q": "Q", "R": "R", "pos_n": "POS_N",
         "pos_e": "POS_E", "alt": "ALT", "pow": "POW"}


class Llc(LowLevelController):
    """A controller with another number of integrators."""

    def get_num_integrators(self):
        return 5


def make(rng, i, tier):
    return {"n": int(rng.integers(1, 7)) if i % 25 else int(rng.integers(7, 41)), "T": int(rng.integers(1, 12)), "ext": maybe(rng, 0.7), "tuples": maybe(rng, 0.5), "five": maybe(rng, 0.2),
            "order": rng.permutation(41).tolist(), "noise": float(rng.uniform(-1, 1)), "more": maybe(rng, 0.3), "status": pick(rng, "finished", "error", "autopilot finished")}


def run(case, ctx):
    n, T = case["n"], case["T"]
    llc = (Llc if case["five"] else LowLevelController)()
    k = 13 + llc.get_num_integrators()
    # every recorded value unique
    owner = {}
    X = np.zeros((T, n * k))
    for t in range(T):
        for a in range(n):
            for c in range(k):
                v = 1e6 * a + 1e3 * t + c + case["noise"] * 1e-3
                X[t, a * k + c] = v
                owner[v] = (a, t, c)
    res = {"status": case["status"], "times": [0.1 * t for t in range(T)], "modes": [f"m{t}" for t in range(T)], "states": X}
    if case["ext"]:
        for q, key in enumerate(KEYS):
            rows = []
            for t in range(T):
                row = []
                for a in range(n):
                    if key in ("xd_list", "u_list"):
                        row.append(np.array([1e6 * a + 1e3 * t + 10 * q + c / 10 for c in range(7 if key == "u_list" else k)]))
                    else:
                        row.append(1e6 * a + 1e3 * t + 10 * q + 0.5)
                rows.append(tuple(row) if case["tuples"] else row)
            res[key] = rows if n > 1 else [r[0] for r in rows]
    Xc = X.copy()
    ids = {key: id(res[key]) for key in res}
    found = {}
    for a in [b for b in case["order"] if b < n]:
        out = extract_single_result(res, a, llc)
        ctx.check(set(out) >= {"status", "times", "modes", "states"}, "an extracted result misses a common entry", got=sorted(out))
        ctx.check(out["status"] == case["status"] and list(out["times"]) == [0.1 * t for t in range(T)] and list(out["modes"]) == [f"m{t}" for t in range(T)],
                  "the extracted result's status, times or modes are not the common ones")
        S = np.asarray(out["states"])
        ctx.check(S.shape == (T, k), "extracted states have the wrong shape", shape=S.shape, expected=(T, k))
        for t in range(T):
            for c in range(k):
                o = owner.get(float(S[t, c]))
                ctx.check(o == (a, t, c), "an extracted state is not that aircraft's own", asked=(a, t, c), got=o)
                found[o] = found.get(o, 0) + 1
        for q, key in enumerate(KEYS):
            ctx.check((key in out) == case["ext"], "recorded outputs appear or vanish in the extraction", key=key)
            if not case["ext"]:
                continue
            rows = out[key]
            ctx.check(len(rows) == T, "an extracted output has the wrong number of times", key=key, got=len(rows))
            for t in range(T):
                v = rows[t]
                if key in ("xd_list", "u_list"):
                    want = [1e6 * a + 1e3 * t + 10 * q + c / 10 for c in range(7 if key == "u_list" else k)]
                    ctx.close(v, want, 0, "an extracted output is not that aircraft's own", key=key, aircraft=a, t=t)
                else:
                    ctx.close(v, 1e6 * a + 1e3 * t + 10 * q + 0.5, 0, "an extracted output is not that aircraft's own", key=key, aircraft=a, t=t)
                ctx.obs("outputs located")
    ctx.check(len(found) == T * n * k and all(v == 1 for v in found.values()), "the extractions do not hold every recorded value once", found=len(found), recorded=T * n * k)
    ctx.obs("states located", len(found))
    ctx.check(np.array_equal(X, Xc) and {key: id(res[key]) for key in res} == ids and len(res) == (9 if case["ext"] else 4), "extracting modified the joint result")
    if n == 1:
        ctx.raises(lambda: extract_single_result(res, 1, llc), (AssertionError, IndexError, ValueError), "an aircraft that does not exist")
    names = list(get_state_names())
    ctx.check(len(names) == 13 and [getattr(StateIndex, INDEX[m]) for m in names] == list(range(13)), "state names and indices disagree", names=names)
    ctx.check((StateIndex.VEL, StateIndex.POSN, StateIndex.POSE, StateIndex.H) == (0, 9, 10, 11), "state index aliases disagree")
    names.append("x")
    ctx.check(len(get_state_names()) == 13, "the state names can be changed through the returned list")
    ctx.nontrivial()
