from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, cmpx
import copy, collections
import numpy as np
from pydarnio import dict2dmap, dmap2dict, DmapScalar, DmapArray, DmapRead, DmapWrite

RULE = ("lists of 0-5 records of python and numpy scalars, arrays of every DMap dtype and memory layout and nested lists, converted to typed "
        "records and back; separately, records with one value of a type DMap cannot represent at a random place; non-trivial: at least one field")
ASSUMPTIONS = ["numpy int32/float32 scalars come back as python int/float (documented casting table)"]

PY = st.one_of(st.integers(-2**31, 2**31 - 1), st.floats(width=32), dgen.texts)


@st.composite
def field(draw):
    """(value description) -> built in build()"""
    k = draw(st.sampled_from(["py", "np", "np", "arr", "arr", "list"]))
    if k == "py":
        return ("py", draw(PY))
    if k == "np":
        code = draw(st.sampled_from(R.NUMERIC))
        return ("np", code, draw(st.booleans()), draw(dgen.scalar_value(code)))
    if k == "arr":
        code = draw(st.sampled_from(R.NUMERIC))
        return ("arr", code, draw(dgen.array_of(code, draw(st.one_of(dgen.SHAPES, st.just([0]))))), draw(st.sampled_from(dgen.LAYOUTS)))
    code = draw(st.sampled_from([10, 8]))
    shape = draw(st.sampled_from([[1], [3], [2, 2], [2, 1, 3]] + ([[0], [2, 0]] if code == 8 else [])))
    return ("list", code, draw(dgen.array_of(code, shape)))


def build(f):
    if f[0] == "py":
        return f[1]
    if f[0] == "np":
        t = R.TYPES[f[1]][1]
        return (dgen.LONG.get(t, t) if f[2] else t)(f[3])
    if f[0] == "arr":
        return dgen.layout(f[2], f[3]) if f[2].size else f[2].copy()
    return f[2].tolist()


def code_of(f):
    if f[0] == "py":
        return {int: 3, float: 4, str: 9}[type(f[1])]
    return f[1]


@st.composite
def case(draw):
    recs = []
    for _ in range(draw(st.integers(0, 5))):
        names = draw(st.lists(dgen._names, max_size=6, unique=True))
        recs.append([(n, draw(field())) for n in names])
    return {"recs": recs, "container": draw(st.sampled_from(["list", "tuple", "deque"])), "mapping": draw(st.sampled_from(["dict", "odict"]))}


def run(c, ctx):
    mk = dict if c["mapping"] == "dict" else collections.OrderedDict
    src = [mk((n, build(f)) for n, f in r) for r in c["recs"]]
    before = copy.deepcopy(src)
    box = {"list": list, "tuple": tuple, "deque": collections.deque}[c["container"]](src)
    with must("dict2dmap"):
        typed = dict2dmap(box)
    check(len(typed) == len(src), lambda: f"{len(src)} records, {len(typed)} typed")
    for i, (t, r) in enumerate(zip(typed, c["recs"])):
        check(list(t) == [n for n, _ in r], lambda: f"record {i}: fields {list(t)}")
        for n, f in r:
            g, v, code = t[n], src[i][n], code_of(f)
            ctx.label(f[0], f"code={code}")
            check(g.name == n, lambda: f"record {i} {n!r}: entry named {g.name!r}")
            check((g.data_type, g.data_type_fmt) == (code, R.FMT[code]), lambda: f"record {i} {n!r}: {type(v).__name__} typed as {g.data_type}/{g.data_type_fmt}, want {code}/{R.FMT[code]}")
            if f[0] in ("py", "np"):
                check(type(g) is DmapScalar, f"record {i} {n!r}: not a scalar")
                check(dgen.same_scalar(code, g.value, f[-1]), lambda: f"record {i} {n!r}: value {g.value!r}, want {v!r}")
            else:
                check(type(g) is DmapArray, f"record {i} {n!r}: not an array")
                w = f[2]
                check(g.dimension == w.ndim and list(g.shape) == list(w.shape), lambda: f"record {i} {n!r}: {g.dimension} {g.shape}, want {w.shape}")
                check(isinstance(g.value, np.ndarray) and g.value.shape == w.shape and g.value.dtype.newbyteorder("=") == w.dtype, lambda: f"record {i} {n!r}: {cmpx.describe(g.value)}, want {cmpx.describe(w)}")
                m = dgen.diff_array(g.value.astype(w.dtype), w, f"record {i} {n!r}")
                if m:
                    fail(m)
    tsnap = copy.deepcopy(typed)
    with must("dmap2dict"):
        back = dmap2dict(typed)
    check(len(back) == len(src), lambda: f"{len(src)} records, {len(back)} after converting back")
    for i, (b, r) in enumerate(zip(back, c["recs"])):
        check(list(b) == [n for n, _ in r], lambda: f"record {i}: fields {list(b)} after converting back")
        for n, f in r:
            code, g = code_of(f), b[n]
            if f[0] in ("py", "np"):
                check(type(g) is dgen.DICT_TYPES[code], lambda: f"record {i} {n!r}: {type(g).__name__} after converting back a {type(src[i][n]).__name__}")
                check(dgen.same_scalar(code, g, f[-1]), lambda: f"record {i} {n!r}: {g!r} after converting back {src[i][n]!r}")
            else:
                check(isinstance(g, np.ndarray), f"record {i} {n!r}: not an array")
                m = dgen.diff_array(g.astype(g.dtype.newbyteorder("=")), f[2], f"record {i} {n!r} after converting back")
                if m:
                    fail(m)
    with must("dict2dmap again"):
        again = dict2dmap(back)
    for i, (a, t) in enumerate(zip(again, typed)):
        for n in t:
            x, y = a[n], t[n]
            check(type(x) is type(y) and x.name == y.name and x[2:] == y[2:] and cmpx.same_value(np.asarray(x.value), np.asarray(y.value).astype(np.asarray(x.value).dtype)),
                  lambda: f"record {i} {n!r}: converted again {x!r:.200}, first {y!r:.200}")
    for what, old, new in (("dict2dmap", before, src),):
        for i, (a, b) in enumerate(zip(old, new)):
            check(list(a) == list(b), f"{what} changed the fields of its input record {i}")
            for n in a:
                check(same(a[n], b[n]), lambda: f"{what} changed input value {n!r}")
    for a, b in zip(tsnap, typed):
        for n in a:
            check(list(a) == list(b) and type(a[n]) is type(b[n]) and a[n][2:] == b[n][2:] and same(a[n].value, b[n].value), lambda: f"dmap2dict changed its input {n!r}")
    ctx.trivial = not any(r for r in c["recs"])


def same(a, b):
    return type(a) is type(b) and (a == b if isinstance(a, list) and a == a else cmpx.same_value(np.asarray(a), np.asarray(b)))


BAD = {"bool": lambda: True, "np.bool": lambda: np.bool_(True), "none": lambda: None, "complex": lambda: 1j, "bytes": lambda: b"ab",
       "complex_array": lambda: np.ones(3, np.complex64), "bool_array": lambda: np.array([True, False]), "str_array": lambda: np.array(["a", "bc"]),
       "object_array": lambda: np.array([1, None], dtype=object), "str_list": lambda: ["a", "b"], "dict": lambda: {"a": 1},
       "float16": lambda: np.float16(1), "float16_array": lambda: np.ones(2, np.float16), "bytes_array": lambda: np.array([b"a"]),
       "set": lambda: {1}, "complex64": lambda: np.complex64(1), "datetime": lambda: np.array(["2020-01-01"], "M8[s]"),
       "longdouble": lambda: np.longdouble(1), "bool_list": lambda: [True, False], "mixed_list": lambda: [1, "a"], "object": lambda: object()}


@st.composite
def badcase(draw):
    recs = []
    for _ in range(draw(st.integers(1, 4))):
        names = draw(st.lists(dgen._names, min_size=1, max_size=5, unique=True))
        recs.append([(n, draw(field())) for n in names])
    i = draw(st.integers(0, len(recs) - 1))
    j = draw(st.integers(0, len(recs[i]) - 1))
    return {"recs": recs, "at": (i, j), "bad": draw(st.sampled_from(sorted(BAD)))}


def badrun(c, ctx):
    src = [dict((n, build(f)) for n, f in r) for r in c["recs"]]
    i, j = c["at"]
    src[i][c["recs"][i][j][0]] = BAD[c["bad"]]()
    ctx.label(c["bad"])
    try:
        t = dict2dmap(src)
    except Exception:
        return
    fail(f"a {c['bad']} value was accepted as {t[i][c['recs'][i][j][0]]!r}")


SUBS = [Sub("convert", case, run, 2400, 40000), Sub("refuse", badcase, badrun, 500, 6000)]
