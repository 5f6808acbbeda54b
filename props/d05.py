from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, dfuzz
import struct
import numpy as np

RULE = ("valid multi-record files with 1-3 structural mutations (sizes, counts, types, dimensions, terminators, text, data, cuts, insertions, "
        "duplications) and arbitrary bytes behind plausible headers; each is read and judged against an independent strict decoder; "
        "non-trivial: the bytes differ from a valid file or were read and compared")
ASSUMPTIONS = ["documented reading errors: EmptyFileError, CursorError, DmapDataError, DmapDataTypeError, ZeroByteError, NegativeByteError, "
               "MismatchByteError, ValueError", "a case is a hang after 60 CPU seconds"]


@st.composite
def mcase(draw):
    data, desc = draw(dfuzz.mutated())
    return {"data": data, "desc": desc}


def run(c, ctx):
    out, want = dfuzz.judge(c["data"], ctx)
    if out == "refused" and want is not None:
        ctx.label("refused-though-wellformed")
        check(not want or not dfuzz.readable(want), "well-formed readable data was refused")
    for d in c["desc"]:
        ctx.label("mut-" + d.split("@")[0].split("+")[0])
    ctx.trivial = not c["desc"]


@st.composite
def raw(draw):
    body = draw(st.lists(st.one_of(
        st.binary(max_size=12),
        st.integers(-3, 70).map(lambda i: struct.pack("<i", i)),
        st.sampled_from([b"slist\0", b"a\0", b"bc\0", b"\0"]).flatmap(lambda n: st.sampled_from([1, 2, 3, 4, 8, 9, 10, 16, 17, 18, 19, 0]).map(lambda t: n + bytes([t]))),
        st.sampled_from([1, 2, 3]).flatmap(lambda n: st.lists(st.integers(-2, 4), min_size=n, max_size=n).map(
            lambda d: struct.pack("<i", len(d)) + b"".join(struct.pack("<i", x) for x in d)))), max_size=10))
    body = b"".join(body)
    size = 16 + len(body) + draw(st.sampled_from([0, 0, 0, 0, 1, -1, 4]))
    h = struct.pack("<iiii", draw(st.sampled_from([65537, 65537, 0])), size, draw(st.integers(0, 3)), draw(st.integers(0, 3)))
    return {"data": h + body if draw(st.integers(0, 9)) else body, "desc": ["raw"]}


@st.composite
def slist(draw):
    """Arrays named slist, the one name whose dimensions may be zero."""
    nd = draw(st.integers(1, 3))
    dims = draw(st.lists(st.sampled_from([-3, -2, -1, -1, 0, 1, 1, 2, 3]), min_size=nd, max_size=nd))
    n = 1
    for d in dims:
        n *= d
    code = draw(st.sampled_from(R.NUMERIC))
    size = R.TYPES[code][2]
    name = draw(st.sampled_from([b"slist"] * 5 + [b"slist2", b"slist_w", b"xslist", b"Slist", b"slist ", b"s", b"data", b""]))
    arr = name + b"\0" + bytes([code]) + struct.pack("<i", nd) + b"".join(struct.pack("<i", d) for d in dims)
    arr += b"\1" * max(0, n * size if draw(st.integers(0, 3)) else draw(st.integers(0, 12)))
    other = R.enc_array("q", 2, np.arange(4, dtype="i2"))
    if n < 0 and draw(st.booleans()):
        # what a reader moving backwards over the dimension sizes would take for the next array
        back = arr[n * size:] + other
        cut = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
        z = R.enc_array("", draw(st.sampled_from([1, 2, 3])), np.arange(draw(st.integers(1, 9))).astype("i1"))
        arrs = [arr, z[cut:] if draw(st.booleans()) else back]
        total = len(b"".join(arrs)) + draw(st.sampled_from([0, n * size, -n * size]))
        nar = 2
    else:
        arrs = draw(st.permutations([arr, other] if draw(st.booleans()) else [arr]))
        total, nar = len(b"".join(arrs)), len(arrs)
    sc = R.enc_scalar("x", 2, 5)
    size = 16 + len(sc) + total + draw(st.sampled_from([0, 0, 0, n * size if n < 0 else 0]))
    return {"data": struct.pack("<iiii", 65537, size, 1, nar) + sc + b"".join(arrs), "desc": ["slist"]}


@st.composite
def counts(draw):
    """Blocks with few or no scalars or arrays whose header counts are right, or not."""
    bodies, b = [], b""
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        ns, na = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        sc = b"".join(R.enc_scalar(f"s{i}", draw(st.sampled_from([1, 2, 3, 8])), i) for i in range(ns))
        ar = b"".join(R.enc_array(draw(st.sampled_from([f"a{i}", f"a{i}", "slist"])) if i == 0 else f"a{i}", 2, np.arange(1, 2 + i, dtype="i2")) for i in range(na))
        if not draw(st.integers(0, 5)):
            sc, ar = ar, sc
        wrong = st.sampled_from([0, 0, 0, -1, -2, 1, -10**6, 2**31 - 1, -2**31])
        hs, ha = ns, na
        what = draw(st.integers(0, 3))
        if what in (1, 3):
            hs = draw(st.one_of(st.just(-ns), wrong.map(lambda d: max(-2**31, min(2**31 - 1, ns + d)))))
        if what in (2, 3):
            ha = draw(st.one_of(st.just(-na), wrong.map(lambda d: max(-2**31, min(2**31 - 1, na + d)))))
        b += struct.pack("<iiii", 65537, 16 + len(sc) + len(ar), hs, ha) + sc + ar
        bodies.append((ns, na, hs, ha))
    return {"data": b, "desc": ["counts" if any(x[:2] != x[2:] for x in bodies) else "counts-right"]}


def _neg():
    """A block whose slist has a negative size and whose next array overlaps its dimension sizes."""
    for code, one in ((1, 1), (2, 1), (4, 1), (8, 1)):
        s = R.TYPES[code][2]
        for dims in ((-1, 1), (-1, 256), (1, -1), (-1,)):
            arr = b"slist\0" + bytes([code]) + struct.pack("<i", len(dims)) + b"".join(struct.pack("<i", d) for d in dims)
            for k in range(1, 9):
                z = bytes([1]) + struct.pack("<ii", 1, k) + b"\5" * k
                sc = R.enc_scalar("x", 2, 5)
                body = sc + arr + z
                yield {"data": struct.pack("<iiii", 65537, 16 + len(body), 1, 2) + body, "desc": ["slist"]}


SUBS = [Sub("mutate", mcase, run, 9000, 250000), Sub("raw", raw, run, 3000, 60000), Sub("slist", slist, run, 2400, 30000, examples=_neg),
        Sub("counts", counts, run, 1500, 20000)]
