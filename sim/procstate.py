"""What a caller's process looks like: everything a library call should leave alone."""

from __future__ import annotations

import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np


def fds() -> dict:
    """Open file descriptors and what they refer to."""
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            continue
    return out


def left_open(before: dict, after: dict) -> list:
    """Files in `after` that were not open before, other than the interpreter's own."""
    return [p for n, p in sorted(after.items()) if before.get(n) != p
            and not p.startswith((sys.prefix, sys.base_prefix + "/lib"))]


def figure_state(fig) -> tuple:
    return (fig.get_suptitle(), tuple(fig.get_size_inches()), fig.dpi, [
        (a.get_title(), a.get_xlim(), a.get_ylim(), len(a.lines), len(a.collections),
         len(a.patches), len(a.texts), a.get_xlabel(), a.get_ylabel()) for a in fig.axes])


def _pandas() -> str:
    from pandas._config import config

    return repr(config._global_config)


def _logging() -> str:
    """The root logger and the caller's; libraries' own loggers are theirs."""
    return repr([logging.root.manager.disable, *(
        (lg.level, [id(h) for h in lg.handlers], lg.propagate, lg.disabled)
        for lg in (logging.getLogger(), logging.getLogger("caller")))])


def _decimal() -> str:
    return repr(decimal.getcontext())


def snapshot() -> dict:
    """The state of the process, by what a user would call it."""
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf

    act = Gcf.get_active()
    out = {
        "pyplot figures": tuple(plt.get_fignums()),
        "current figure": act.num if act else None,
        "contents of the caller's figures": repr([
            figure_state(Gcf.figs[n].canvas.figure) for n in plt.get_fignums()]),
        "matplotlib settings": repr(sorted((k, repr(v)) for k, v in mpl.rcParams.items())),
        "interactive mode": plt.isinteractive(), "backend": mpl.get_backend(),
        "colour maps": tuple(mpl.colormaps),
        "working directory": os.getcwd(),
        "Python's random generator": random.getstate(),
        "numpy's random generator": repr(np.random.get_state()),
        "numpy error settings": repr((np.geterr(), np.geterrcall())),
        "numpy print options": repr(np.get_printoptions()),
        "pandas options": _pandas(),
        "warning filters": repr((warnings.filters, warnings.showwarning.__module__)),
        "environment": dict(os.environ),
        "signal handlers": repr([signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGCHLD,
            signal.SIGPIPE)]),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "locale": locale.setlocale(locale.LC_ALL), "threads": threading.active_count(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "exception hooks": (id(sys.excepthook), id(threading.excepthook),
                            id(sys.unraisablehook)),
        "import path": tuple(sys.path),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace()),
        "fault handler": faulthandler.is_enabled(),
        "logging": _logging(), "decimal context": _decimal(),
        "resource limits": tuple(resource.getrlimit(r) for r in (
            resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU,
            resource.RLIMIT_DATA, resource.RLIMIT_STACK)),
        "temporary directory": tempfile.tempdir, "stack size": threading.stack_size(),
    }
    if "sklearn" in sys.modules:
        import sklearn

        out["scikit-learn settings"] = repr(sorted(sklearn.get_config().items()))
    if "multiprocessing" in sys.modules:
        import multiprocessing

        out["multiprocessing start method"] = multiprocessing.get_start_method()
        out["child processes"] = len(multiprocessing.active_children())
    return out


def changes(before: dict, after: dict) -> list:
    """[(what, how)] for everything that differs."""
    out = []
    for k in sorted(set(before) | set(after)):
        a, b = before.get(k), after.get(k)
        if k in before and k in after and a != b:
            how = f"{a} -> {b}" if len(repr(a)) + len(repr(b)) < 300 else ""
            if k in ("environment",):
                how = str({n: (a.get(n), b.get(n)) for n in sorted(set(a) | set(b))
                           if a.get(n) != b.get(n)})[:300]
            out.append((k, how))
    return out
