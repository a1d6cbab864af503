"""Encoding of the observed values as the integers used by the specifications."""
import numpy as np

NAN = -999999001
NONINT = -999999002
BIG = 10**9


def num(x):
    """An integer, or a sentinel for NaN and for anything which is not an integer."""
    try:
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, (complex, np.complexfloating)):
            if x.imag != 0:
                return NONINT
            x = x.real
        f = float(x)
    except (TypeError, ValueError):
        return NONINT
    if f != f:
        return NAN
    if abs(f) >= BIG or f != int(f):
        return NONINT
    return int(f)


def near(x, scale=1, tol=1e-6):
    """round(x * scale) when x * scale is within tol of an integer."""
    try:
        f = float(x) * scale
    except (TypeError, ValueError):
        return NONINT
    if f != f:
        return NAN
    if abs(f) >= BIG:
        return NONINT
    r = round(f)
    if abs(f - r) > tol * max(1, abs(r)) ** 0.5:
        return NONINT
    return int(r)


def flat(x, f=num):
    return [f(_) for _ in np.asarray(x).ravel().tolist()]


def cells(x, ndim=1, f=num):
    """List of cells: the trailing dimensions are flattened."""
    x = np.asarray(x)
    if x.ndim < ndim:
        return [[NONINT]]
    n = int(np.prod(x.shape[:ndim], dtype=int))
    k = int(np.prod(x.shape[ndim:], dtype=int))
    x = x.reshape((n, k))
    return [[f(_) for _ in row] for row in x.tolist()]


def call(func, *args, **kw):
    """('ok', result) or ('exc:TypeName', message)."""
    try:
        return 'ok', func(*args, **kw)
    except Exception as exc:
        return f'exc:{type(exc).__name__}', str(exc)[:200]
