"""Exact comparison: python/numpy types, dtypes, shapes and bit patterns (NaN equal to the same NaN)."""
import numpy as np


def bits(a):
    a = np.ascontiguousarray(a)
    if a.dtype.kind == "V" or a.dtype.kind == "O":
        return repr(a).encode()
    return a.tobytes()


def same_array(a, b, nan_any=True):
    """Same dtype, shape and elements. nan_any: any NaN payload equals any other."""
    if type(a) is not type(b) and not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
        return False
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if bits(a) == bits(b):
        return True
    if a.dtype.kind in "fc":
        return same_float(a, b)
    return bool(np.array_equal(a, b))


def same_float(a, b):
    if a.dtype.kind == "c":
        return same_float(a.real, b.real) and same_float(a.imag, b.imag)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    # non-NaN elements bit for bit (distinguishes -0.0)
    return bits(np.where(na, np.zeros_like(a), a)) == bits(np.where(nb, np.zeros_like(b), b))


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and same_array(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, np.floating, np.complexfloating)):
        x, y = np.array([a]), np.array([b])
        return same_array(x, y)
    return bool(a == b)


def describe(v):
    if isinstance(v, np.ndarray):
        return f"ndarray{v.shape} {v.dtype} {np.array2string(v.ravel(), threshold=8, edgeitems=3)}"
    return f"{type(v).__name__} {v!r}"[:200]


def diff_dict(got, want, what="record", order=False):
    """None if equal, else a message."""
    if order and list(got) != list(want):
        return f"{what}: fields {list(got)} != {list(want)}"
    if set(got) != set(want):
        return f"{what}: missing {sorted(map(str, set(want) - set(got)))[:8]} extra {sorted(map(str, set(got) - set(want)))[:8]}"
    for k in want:
        if not same_value(got[k], want[k]):
            return f"{what}[{k!r}]: got {describe(got[k])}, want {describe(want[k])}"
    return None


def diff_records(got, want, what="records"):
    """Mappings record name -> record."""
    if list(map(str, got)) != list(map(str, want)):
        return f"{what}: record names {list(got)} != {list(want)}"
    for g, w in zip(got, want):
        d = diff_dict(got[g], want[w], f"{what}[{g}]")
        if d:
            return d
    return None
