"""helpers shared by the checks: everything goes through the public interface"""

import contextlib
import io
import os
import tempfile

import numpy as np

from harness import Fail
from refmodel import RefModel

ATOL = 1e-7


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def write(api, text, name="m.yaml", funcs=None, where=None):
    d = where or api.dir()
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    if funcs is not None:
        with open(p[:-5] + "_funcs.py", "w") as f:
            f.write(funcs)
    return p


def read(api, text, funcs=None, nocache=True, **k):
    from pydsge import DSGE

    return quiet(DSGE.read, write(api, text, funcs=funcs), nocache=nocache, **k)


def fclose(a, b, rtol=1e-6, atol=ATOL):
    """equal up to numerical noise; False for any difference in shape"""
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    scale = max(1.0, float(np.max(np.abs(np.where(nb | np.isinf(b), 0, b)))))
    with np.errstate(invalid="ignore"):
        d = np.where(na | (a == b), 0.0, np.abs(a - b))
    return bool(np.all(d <= atol + rtol * scale))


def same(a, b):
    """bitwise equality"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (np.array_equal(a, b) or (a.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True)))


def maxdiff(a, b):
    try:
        return float(np.nanmax(np.abs(np.asarray(a, float) - np.asarray(b, float))))
    except Exception:
        return None


def fail_unless(cond, sig, msg, detail=None):
    if not cond:
        raise Fail(sig, msg() if callable(msg) else msg, detail)


def cols(m, X, names):
    """columns of the trajectory X (array [..., dimx]) for the named variables"""
    X = np.asarray(X)
    vv = [str(v) for v in m.vv]
    return {n: X[..., vv.index(n)] for n in names}


def raises(f, *a, **k):
    """the exception raised by f, or None"""
    try:
        quiet(f, *a, **k)
    except Exception as e:
        return e
    return None


def impl_state(m, ref_names, x, vars_):
    """translate a vector of the reference's companion variables to a state vector
    of the model. Only for models whose auxiliary states are first lags."""
    out = np.zeros(len(m.vv))
    for i, v in enumerate(m.vv):
        v = str(v)
        if v in vars_:
            out[i] = x[ref_names.index(v)]
        elif v.endswith("_lag") and v[:-4] in vars_:
            out[i] = x[ref_names.index(v[:-4])]
        else:
            return None
    return out


def forked(f, *a):
    """run f(*a) in a forked child; its result, or its exception, is handed back.
    Used to explore a tree of histories: the child inherits the whole program state."""
    import pickle
    import sys
    import traceback

    from harness import in_pydsge, where

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = ("ok", f(*a))
            except Fail as e:
                out = ("fail", (e.sig, e.msg, e.detail))
            except Exception as e:
                tb = sys.exc_info()[2]
                if in_pydsge(tb):
                    out = ("fail", ("exception", "unexpected %s in %s: %s" % (type(e).__name__, where(tb), str(e)[:300]), traceback.format_exc()[-3000:]))
                else:
                    out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    if not b:
        raise Fail("crash", "process died while executing")
    kind, val = pickle.loads(b)
    if kind == "fail":
        raise Fail(*val)
    if kind == "error":
        raise RuntimeError(val[-700:])
    return val
