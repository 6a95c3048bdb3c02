"""Snapshot of what a process shares with everyone in it."""
import decimal
import gc
import builtins
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings

import numpy as np
import pint
import scipy.integrate
import scipy.linalg
from scipy.spatial.transform import Rotation


REGISTRY = ("autoconvert_offset_to_baseunit", "autoconvert_to_preferred", "default_as_delta", "force_ndarray", "force_ndarray_like", "auto_reduce_dimensions",
            "case_sensitive", "default_system", "separate_format_defaults", "mpl_formatter", "cache_folder")


SHARED = (np, builtins, np.linalg, scipy.integrate, scipy.linalg, Rotation)
NAMES = {m.__name__: {k for k, v in vars(m).items() if callable(v) and k != "_"} for m in SHARED}


def world():
    """What the process shares with everyone in it."""
    u = pint.get_application_registry()
    import jax
    st = np.random.get_state()
    log = logging.getLogger()
    return {
        "NumPy's random state": (st[0], st[1].tobytes(), st[2:]),
        "the random module's state": random.getstate(),
        "NumPy's error handling": (tuple(np.geterr().items()), np.geterrcall()),
        "NumPy's print options": str(np.get_printoptions()),
        "the warning filters": tuple(map(str, warnings.filters)),
        "the environment": tuple(sorted(os.environ.items())),
        "the working directory": os.getcwd(),
        "JAX's precision setting": (jax.config.jax_enable_x64, str(jax.config.jax_default_matmul_precision), jax.config.jax_disable_jit, jax.config.jax_debug_nans),
        "the units registry": (id(u.get() if hasattr(u, "get") else u), str(getattr(u, "default_format", "")), str(u.Quantity(1, "foot").to("m").magnitude),
                               str(u.Quantity(1, "degree").to("radian").magnitude), str(u.Quantity(1, "newton").to_base_units()),
                               tuple(str(getattr(u, k, "")) for k in REGISTRY), str(getattr(getattr(u, "formatter", None), "default_format", ""))),
        "the logging set-up": (log.level, len(log.handlers), logging.root.manager.disable),
        "the threads": threading.active_count(),
        "the signal handlers": (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGTERM), signal.getsignal(signal.SIGPIPE)),
        "the recursion limit": sys.getrecursionlimit(),
        "the import path": tuple(sys.path),
        "the decimal context": str(decimal.getcontext()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "the open files": len(os.listdir("/proc/self/fd")),
        "the scratch directory": tuple(sorted(os.listdir("."))),
        "the hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), warnings.showwarning, threading.excepthook),
        "the umask": umask(),
        "NumPy, SciPy or the built-ins": tuple((m.__name__, k, id(v)) for m in SHARED for k, v in sorted(vars(m).items()) if callable(v) and k in NAMES[m.__name__]),
        "the thread switching": (sys.getswitchinterval(), threading.stack_size()),
        "NumPy's buffer size": np.getbufsize(),
        "the processors used": tuple(sorted(os.sched_getaffinity(0))) + (os.getpriority(os.PRIO_PROCESS, 0), ),
        "the resource limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_STACK)),
        "the network timeout": socket.getdefaulttimeout(),
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m
