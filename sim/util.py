"""Shared helpers of the checks."""
import contextlib
import gc
import io
import os
import sys

import numpy as np

OPTS = ("vea", "ver", "iea", "ier", "gmin", "cmin", "dense_matrix_limit", "nr_damp_first_iters",
        "nl_voltages_lock", "nl_voltages_lock_factor", "use_standard_solve_method",
        "use_gmin_stepping", "use_source_stepping", "dc_max_nr_iter", "dc_use_guess",
        "dc_max_guess_effort", "dc_sweep_skip_allowed", "hmin", "transient_max_time_iter",
        "transient_max_nr_iter", "transient_prediction_as_x0",
        "transient_use_aposteriori_step_control", "transient_aposteriori_step_threshold",
        "transient_no_step_control", "shooting_default_points", "shooting_max_nr_iter",
        "bfpss_default_points", "bfpss_max_nr_iter", "ac_max_nr_iter", "ac_phase_in_deg",
        "cache_len", "cli", "print_suppress", "print_precision", "encoding", "pz_max",
        "symb_sympy_manual_solver", "symb_formulate_with_gs", "default_tran_method")


VERBOSE = 0         # asked of every analysis that goes through run()


def set_options(d):
    global VERBOSE
    from ahkab import options
    VERBOSE = d.get("_verbose", 0)
    for k in d:
        if not hasattr(options, k):
            continue
        setattr(options, k, d[k])


def options_snapshot():
    from ahkab import options
    return {k: repr(v) for k, v in vars(options).items()
            if not k.startswith("_") and not callable(v) and type(v).__name__ != "module"
            and k != "plotting_rcParams"}


@contextlib.contextmanager
def quiet():
    """Capture what the library prints (text), return the two streams."""
    o, e = io.TextIOWrapper(io.BytesIO(), "utf8", write_through=True), io.TextIOWrapper(io.BytesIO(), "utf8", write_through=True)
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = o, e
    try:
        yield o, e
    finally:
        sys.stdout, sys.stderr = so, se


def get_names(res, names):
    return np.array([np.asarray(res[n]).reshape(-1) for n in names])


def op_vec(res, sysm):
    """An op result as a vector in reference order."""
    return sysm.vec(lambda n: float(np.asarray(res[n]).reshape(-1)[0]))


class Failed(object):
    """An analysis that reported failure."""

    def __init__(self, why, exc=None):
        self.why, self.exc = why, exc

    def __repr__(self):
        return "Failed(%s)" % self.why


def attempt(fn, *a, **k):
    """Run an analysis; failure (None, exception, SystemExit) -> Failed."""
    try:
        r = fn(*a, **k)
    except KeyboardInterrupt:
        raise
    except SystemExit as e:
        return Failed("SystemExit(%s)" % (e.code,), e)
    except Exception as e:
        return Failed("%s: %s" % (type(e).__name__, str(e)[:200]), e)
    if r is None:
        return Failed("None")
    return r


def loud(an):
    return dict(an, verbose=VERBOSE) if VERBOSE else an


def run1(c, an):
    """ahkab.run with one analysis: the result, or Failed."""
    import ahkab
    r = attempt(ahkab.run, c, [loud(an)])
    if isinstance(r, Failed):
        return r
    v = r.get(an["type"])
    return Failed("None") if v is None else v


def leaked_fds(root):
    """Descriptors of this process that point below root."""
    gc.collect()
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(root + os.sep) and not os.path.basename(t).startswith(".log"):
            out.append(os.path.relpath(t, root))
    return sorted(out)


def vtol(x, nn, opts, k):
    """Element-wise configured tolerance: |x|*er + ea for voltages and currents."""
    t = np.empty(len(x))
    t[:nn] = opts.get("ver", 1e-3) * np.abs(x[:nn]) + opts.get("vea", 1e-6)
    t[nn:] = opts.get("ier", 1e-3) * np.abs(x[nn:]) + opts.get("iea", 1e-9)
    return k * t
