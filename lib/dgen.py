"""Hypothesis strategies for DMap data. Abstract records as in refdmap, plus a 'presentation' of each
value (memory layout, python vs numpy scalar, list) used when handing it to the library."""
from lib import env  # noqa: F401
import collections
import numpy as np
from hypothesis import strategies as st
from lib import refdmap as R

INTS = [1, 2, 3, 10, 16, 17, 18, 19]
FLOATS = [4, 8]
# texts that careless decoding, stripping, normalising or formatting changes
TRICKY = ["\ufeffmarked", "two\r\nlines", "one\rline", "e\u0301 or \u00e9", "\u2028\u2029\x85", "\x7f\x80\xa0", "\ufffd", "\\x00 \\n", "%s {0} {x} %", "'q' \"q\"", "b'bytes'", " both ", "\ufb01 \uff21",
          "\x1b[0m", "nan", "None", "0", "\U0010ffff", "\x01"]
_names = st.one_of(
    st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCXYZ.0123456789_+", min_size=1, max_size=12),
    st.text(alphabet=st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), min_size=1, max_size=8), st.sampled_from(TRICKY))
ascii_names = st.text(alphabet="abcdefghijklmnopqrstuvwxyz.0123456789_+", min_size=1, max_size=10)
texts = st.one_of(st.text(alphabet="abc XYZ:;./-0123456789", max_size=30),
                  st.text(alphabet=st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), max_size=20),
                  st.sampled_from(["", "é", "Møre", "日本語レーダー", "a" * 300, "\n\t", "😀"]), st.sampled_from(TRICKY))
ascii_texts = st.text(alphabet="abc XYZ:;./-0123456789", max_size=30)


def int_values(code):
    info = np.iinfo(R.TYPES[code][1])
    return st.one_of(st.integers(int(info.min), int(info.max)),
                     st.sampled_from(sorted({int(info.min), int(info.max), 0, 1, int(info.max) // 2 + 1, min(100, int(info.max)), int(info.min) // 2})))


def float_values(code):
    return st.floats(width=32 if code == 4 else 64, allow_nan=True, allow_infinity=True)


def scalar_value(code):
    if code == R.STRING:
        return texts
    return int_values(code) if code in INTS else float_values(code)


SHAPES = st.one_of(
    st.lists(st.integers(1, 5), min_size=1, max_size=1),
    st.lists(st.integers(1, 4), min_size=2, max_size=2),
    st.lists(st.integers(1, 3), min_size=3, max_size=4),
    st.lists(st.integers(1, 2), min_size=5, max_size=7),
    st.sampled_from([[1], [1, 1], [7, 1], [1, 7], [70], [300], [3, 25, 2], [2, 3, 4]]))


@st.composite
def array_of(draw, code, shape, special=True):
    n = int(np.prod(shape)) if len(shape) else 1
    dt = R.TYPES[code][1]
    kind = draw(st.sampled_from(["index", "index", "rand", "bits", "same"]))
    if kind == "index":
        a = np.arange(1, n + 1).astype(dt)
    elif kind == "same":
        a = np.full(n, draw(scalar_value(code)), dtype=dt)
    else:
        rng = np.random.Generator(np.random.PCG64(draw(st.integers(0, 2**32 - 1))))
        raw = rng.integers(0, 256, n * np.dtype(dt).itemsize, dtype=np.uint8)
        a = raw.view(dt).copy()
        if code in FLOATS and kind == "rand":
            a = rng.standard_normal(n).astype(dt) * dt(1e3)
    if n and special and draw(st.booleans()):
        v = draw(scalar_value(code))
        a[draw(st.integers(0, n - 1))] = v
    return a.reshape(shape)


@st.composite
def scalar_field(draw, names=_names, codes=tuple(R.NUMERIC) + (R.STRING,)):
    code = draw(st.sampled_from(codes))
    return ["s", draw(names), code, draw(scalar_value(code))]


@st.composite
def array_field(draw, names=_names, codes=tuple(R.NUMERIC), shapes=SHAPES, slist=True):
    code = draw(st.sampled_from(codes))
    if slist and draw(st.integers(0, 11)) == 0:
        return ["a", "slist", code, np.zeros([0], R.TYPES[code][1])]
    shape = draw(shapes)
    return ["a", draw(names), code, draw(array_of(code, shape))]


@st.composite
def record(draw, names=_names, max_scalars=5, max_arrays=4, shuffle=True, slist=True, codes=tuple(R.NUMERIC), strings=True):
    sc = draw(st.lists(scalar_field(names, codes + ((R.STRING,) if strings else ())), min_size=1, max_size=max_scalars))
    ar = draw(st.lists(array_field(names, codes, slist=slist), min_size=1, max_size=max_arrays))
    seen, fields = set(), []
    for f in sc + ar:
        if f[1] == "slist" and f[0] == "s":
            f[1] = "slist_"
        while f[1] in seen:
            f[1] = f[1] + "x"
            if f[0] == "a" and f[3].size == 0:
                f[3] = np.ones([1], f[3].dtype)
        seen.add(f[1])
        fields.append(f)
    if shuffle and draw(st.booleans()):
        fields = draw(st.permutations(fields))
    return [tuple(f) for f in fields]


def records(max_records=4, **kw):
    return st.lists(record(**kw), min_size=1, max_size=max_records)


LONG = {np.int64: np.longlong, np.uint64: np.ulonglong}
LAYOUTS = ["c", "c", "f", "strided", "reversed", "big", "transposed_view", "readonly", "longlong"]


def layout(a, how):
    """An array equal to a, in another memory layout or byte order."""
    if how == "longlong":   # another numpy type of the same 64 bits
        return a.astype(LONG[a.dtype.type]) if a.dtype.type in LONG else a
    if how == "f":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "big":
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "transposed_view":
        return a.T.copy().T
    if how == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


def np_scalar(code, v):
    if code == R.STRING:
        return v
    return R.TYPES[code][1](v)


def present_dict(rec, how=None):
    """The plain-dictionary record handed to the library."""
    d = collections.OrderedDict()
    for i, (kind, name, code, v) in enumerate(rec):
        h = how[i % len(how)] if how else "c"
        if kind == "s":
            if h == "py" and code == 3:
                d[name] = int(v)
            elif h == "py" and code == 4:
                d[name] = float(v)
            elif h == "longlong" and code in (10, 19):
                d[name] = LONG[R.TYPES[code][1]](v)
            else:
                d[name] = np_scalar(code, v)
        else:
            if h == "list" and v.ndim and v.size and code in (10, 8):
                d[name] = v.tolist()
            else:
                d[name] = layout(v, h) if v.size else v.copy()
    return d


def present_dmap(rec, how=None):
    """The typed record (DmapScalar/DmapArray) handed to the library."""
    from pydarnio import DmapScalar, DmapArray
    d = collections.OrderedDict()
    for i, (kind, name, code, v) in enumerate(rec):
        h = how[i % len(how)] if how else "c"
        if kind == "s":
            val = v if h == "py" else np_scalar(code, v)
            d[name] = DmapScalar(name, val, code, R.FMT[code])
        else:
            a = layout(v, h) if v.size else v.copy()
            d[name] = DmapArray(name, a, code, R.FMT[code], a.ndim, list(a.shape))
    return d


def expect_dict_value(f):
    """Value the plain-dictionary view must give for the field after reading, by type."""
    kind, name, code, v = f
    if kind == "a":
        return v
    return v


def same_scalar(code, got, want):
    """Numeric/str equality of a scalar read back, NaN-aware, sign of zero kept."""
    if code == R.STRING:
        return isinstance(got, str) and got == want
    if code in FLOATS:
        dt = R.TYPES[code][1]
        a, b = dt(got), dt(want)
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
        return a.tobytes() == b.tobytes() and float(got) == float(b)
    return int(got) == int(want)


# numpy/python types the plain-dictionary view of a file uses for scalars
DICT_TYPES = {1: np.int8, 2: np.int16, 3: int, 4: float, 8: np.float64, 9: str, 10: np.int64,
              16: np.uint8, 17: np.uint16, 18: np.uint32, 19: np.uint64}


def in_file_order(rec):
    return [f for f in rec if f[0] == "s"] + [f for f in rec if f[0] == "a"]


def diff_typed(got, rec, what, order=True):
    """Typed record from the library against the abstract record (None if equal)."""
    from pydarnio import DmapScalar, DmapArray
    want = in_file_order(rec) if order else rec
    if list(got.keys()) != [f[1] for f in want]:
        return f"{what}: fields {list(got.keys())}, want {[f[1] for f in want]}"
    for kind, name, code, v in want:
        g = got[name]
        if g.name != name:
            return f"{what}[{name!r}]: entry is named {g.name!r}"
        if g.data_type != code or g.data_type_fmt != R.FMT[code]:
            return f"{what}[{name!r}]: type {g.data_type}/{g.data_type_fmt}, want {code}/{R.FMT[code]}"
        if kind == "s":
            if not isinstance(g, DmapScalar):
                return f"{what}[{name!r}]: not a scalar"
            if not same_scalar(code, g.value, v):
                return f"{what}[{name!r}]: scalar {g.value!r}, want {v!r}"
        else:
            if not isinstance(g, DmapArray):
                return f"{what}[{name!r}]: not an array"
            if g.dimension != v.ndim or list(g.shape) != list(v.shape):
                return f"{what}[{name!r}]: dimension {g.dimension} shape {g.shape}, want {v.ndim} {v.shape}"
            m = diff_array(g.value, v, f"{what}[{name!r}]")
            if m:
                return m
    return None


def diff_array(got, want, what):
    from lib.cmpx import describe
    if not isinstance(got, np.ndarray):
        return f"{what}: not an ndarray but {type(got).__name__}"
    if got.shape != want.shape:
        return f"{what}: shape {got.shape}, want {want.shape}"
    if got.dtype != want.dtype:
        return f"{what}: dtype {got.dtype}, want {want.dtype}"
    a = np.ascontiguousarray(got.astype(want.dtype))
    if a.tobytes() != np.ascontiguousarray(want).tobytes():
        return f"{what}: {describe(got)}, want {describe(want)}"
    return None


def diff_plain(got, rec, what):
    """Plain-dictionary record from the library against the abstract record."""
    want = in_file_order(rec)
    if list(got.keys()) != [f[1] for f in want]:
        return f"{what}: fields {list(got.keys())}, want {[f[1] for f in want]}"
    for kind, name, code, v in want:
        g = got[name]
        if kind == "s":
            if type(g) is not DICT_TYPES[code]:
                return f"{what}[{name!r}]: {type(g).__name__}, want {DICT_TYPES[code].__name__}"
            if not same_scalar(code, g, v):
                return f"{what}[{name!r}]: {g!r}, want {v!r}"
        else:
            m = diff_array(g, v, f"{what}[{name!r}]")
            if m:
                return m
    return None


def labels(recs, ctx):
    ctx.label(f"records={min(len(recs), 4)}")
    for r in recs:
        for kind, name, code, v in r:
            if kind == "a":
                ctx.label(f"ndim={min(v.ndim, 4)}", f"array-code={code}")
                if v.size == 0:
                    ctx.label("empty-slist")
            else:
                ctx.label(f"scalar-code={code}")
                if code == R.STRING and not v.isascii():
                    ctx.label("non-ascii-text")
            if not name.isascii():
                ctx.label("non-ascii-name")
        kinds = "".join(f[0] for f in r)
        if "as" in kinds:
            ctx.label("array-before-scalar")


@st.composite
def large(draw):
    """Parameters of data that is large in one respect (built by build_large, so that cases stay small)."""
    kind = draw(st.sampled_from(["fields", "records", "array", "array", "array", "name", "text", "ndim", "arrays", "bigrec"]))
    n = draw({"fields": st.integers(20, 400), "records": st.integers(20, 400), "array": st.integers(2**8 - 2, 2**18), "name": st.integers(30, 5000),
              "text": st.integers(200, 200_000), "ndim": st.integers(8, 32), "arrays": st.integers(20, 300), "bigrec": st.integers(200, 400)}[kind])
    if kind in ("array", "text", "name") and draw(st.booleans()):
        n = draw(st.sampled_from([127, 128, 255, 256, 257, 1023, 1024, 4096])) if kind == "name" else draw(st.sampled_from([255, 256, 32767, 32768, 65535, 65536, 65537, 131072]))
    return {"kind": kind, "n": n, "seed": draw(st.integers(0, 2**32 - 1)), "codes": draw(st.lists(st.sampled_from(list(R.NUMERIC)), min_size=1, max_size=4)),
            "ascii": draw(st.booleans()), "dims": draw(st.sampled_from([1, 2, 2, 3, 3]))}


def build_large(p):
    rng = np.random.Generator(np.random.PCG64(p["seed"]))
    kind, n, codes = p["kind"], p["n"], p["codes"]
    code = lambda i: codes[i % len(codes)]  # noqa: E731

    def arr(c, shape):
        dt = np.dtype(R.TYPES[c][1])
        return rng.integers(0, 256, int(np.prod(shape)) * dt.itemsize, dtype=np.uint8).view(dt).reshape(shape).copy()

    def sca(c):
        x = arr(c, [1])[0]
        return float(x) if c in FLOATS else int(x)
    word = lambda k: "".join(rng.choice(list("abc.xyz_0" if p["ascii"] else "abæ☃.xyz😀"), k))  # noqa: E731
    s, a = ("s", "first", code(0), sca(code(0))), ("a", "last", code(1), arr(code(1), [3]))
    if kind == "fields":
        return [[("s", f"f{i}", code(i), sca(code(i))) for i in range(n)] + [a]]
    if kind == "arrays":
        return [[s] + [("a", f"f{i}", code(i), arr(code(i), [1 + i % 7])) for i in range(n)]]
    if kind == "bigrec":   # many fields and many bytes at once
        return [[s] + [("s", f"s{i}", code(i), sca(code(i))) for i in range(n)] + [("a", f"f{i}", code(i), arr(code(i), [600 + i % 700])) for i in range(n)], [s, a]]
    if kind == "records":
        return [[("s", "i", 3, i), ("s", "x", code(i), sca(code(i))), ("a", "y", code(i), arr(code(i), [1 + i % 5]))] for i in range(n)]
    if kind == "array":
        shape = [n] if p["dims"] == 1 else [int(n ** 0.5), int(n ** 0.5) + 1] if p["dims"] == 2 else [3, max(1, n // 15), 5]
        return [[s, ("a", "big", code(1), arr(code(1), shape)), a], [s, a]]
    if kind == "name":
        return [[("s", word(n), code(0), sca(code(0))), ("a", "a" + word(n), code(1), arr(code(1), [2, 3]))], [s, a]]
    if kind == "text":
        return [[s, ("s", "t", R.STRING, word(n)), a], [("s", "t", R.STRING, word(5)), a]]
    return [[s, ("a", "nd", code(1), arr(code(1), [1 + int(rng.integers(0, 12) == 0) for _ in range(n)])), a]]
