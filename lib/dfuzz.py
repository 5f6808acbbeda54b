"""Mutations of encoded DMap data and the two-sided oracle for reading arbitrary bytes."""
import struct
from hypothesis import strategies as st
from lib import dgen, refdmap as R
from lib.harness import fail, check
import numpy as np
from pydarnio import DmapRead, dmap_exceptions as dx

DOCUMENTED = (dx.EmptyFileError, dx.CursorError, dx.DmapDataError, dx.DmapDataTypeError, dx.ZeroByteError,
              dx.NegativeByteError, dx.MismatchByteError, ValueError)
KINDS = ["ident", "size", "nscalar", "narray", "type", "ndim", "dim", "nul", "text", "value", "data", "name"]


@st.composite
def mutated(draw, max_records=3):
    """(bytes, list of mutation descriptions)"""
    recs = draw(dgen.records(max_records, max_scalars=3, max_arrays=3, shuffle=False))
    data, marks = R.encode_marked(recs)
    b = bytearray(data)
    desc = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        kind = draw(st.sampled_from(["mark"] * 8 + ["flip", "cut", "insert", "delete", "dup", "swapdims", "trailing", "retype"]))
        if not b:
            break
        if kind == "mark":
            want = draw(st.sampled_from(KINDS))
            cand = [m for m in marks if m[2] == want and m[0] + m[1] <= len(b)]
            if not cand:
                continue
            off, n, k = draw(st.sampled_from(cand))
            if n == 4 and k in ("ident", "size", "nscalar", "narray", "ndim", "dim"):
                old = struct.unpack_from("<i", b, off)[0]
                v = draw(st.one_of(st.sampled_from([0, -1, 1, old + 1, old - 1, old * 2, -old, old + 4, old - 4, old + 16, 2**31 - 1, -2**31, len(b),
                                                    len(b) + 1, len(b) - off, 0x10001, 0x100, -16, 16]),
                                   st.integers(-40, 400)))
                struct.pack_into("<i", b, off, max(-2**31, min(2**31 - 1, v)))
                desc.append(f"{k}@{off}:{old}->{v}")
            elif k == "type":
                b[off] = draw(st.one_of(st.sampled_from([0, 1, 2, 3, 4, 8, 9, 10, 16, 17, 18, 19, 5, 255, 128]), st.integers(0, 255)))
                desc.append(f"type@{off}->{b[off]}")
            elif k == "nul":
                b[off] = draw(st.sampled_from([1, 65, 200, 255]))
                desc.append(f"nul@{off}->{b[off]}")
            else:
                i = off + draw(st.integers(0, n - 1))
                b[i] = draw(st.sampled_from([0, 0, 255, 128, 0xC3, 65, b[i] ^ 1]))
                desc.append(f"{k}@{i}->{b[i]}")
        elif kind == "flip":
            i = draw(st.integers(0, len(b) - 1))
            b[i] ^= 1 << draw(st.integers(0, 7))
            desc.append(f"flip@{i}")
        elif kind == "cut":
            i = draw(st.integers(0, len(b)))
            del b[i:]
            desc.append(f"cut@{i}")
        elif kind == "insert":
            i = draw(st.integers(0, len(b)))
            x = draw(st.binary(min_size=1, max_size=20))
            b[i:i] = x
            desc.append(f"insert@{i}+{len(x)}")
        elif kind == "delete":
            i = draw(st.integers(0, len(b) - 1))
            n = draw(st.integers(1, 20))
            del b[i:i + n]
            desc.append(f"delete@{i}+{n}")
        elif kind == "dup":
            i = draw(st.integers(0, len(b) - 1))
            n = draw(st.integers(1, 60))
            b[i:i] = b[i:i + n]
            desc.append(f"dup@{i}+{n}")
        elif kind == "trailing":
            x = draw(st.binary(min_size=1, max_size=24))
            b += x
            desc.append(f"trailing+{len(x)}")
        elif kind == "swapdims":
            dims = [m for m in marks if m[2] == "dim" and m[0] + 4 <= len(b)]
            if len(dims) >= 2:
                i = draw(st.integers(0, len(dims) - 2))
                x, y = dims[i][0], dims[i + 1][0]
                b[x:x + 4], b[y:y + 4] = b[y:y + 4], b[x:x + 4]
                desc.append("swapdims")
        elif kind == "retype":
            t = [m for m in marks if m[2] == "type" and m[0] < len(b)]
            if not t:
                continue
            off = draw(st.sampled_from(t))[0]
            same = {2: [17], 17: [2], 3: [4, 18], 4: [3], 18: [3], 8: [10], 10: [8, 19], 19: [10], 1: [16], 16: [1], 9: [1, 16]}
            b[off] = draw(st.sampled_from(same.get(b[off], [b[off]])))
            desc.append("retype")
    return bytes(b), desc


def readable(recs):
    """Does the decoded content lie in what the reader promises to read?"""
    for r in recs:
        if not any(f[0] == "s" for f in r) or not any(f[0] == "a" for f in r):
            return False
        for kind, name, code, v in r:
            if kind == "a" and (v.ndim > 32 or (v.size == 0 and (name != "slist" or max(v.shape) >= 16))):  # sizes of an empty array are bounded by the record
                return False
    return True


def judge(data, ctx, read=None):
    """Reading data gives a documented error or exactly what it encodes."""
    try:
        want = R.decode(data)
    except R.Bad as e:
        want, why = None, str(e)
    try:
        if read:
            typed, plain = read(data)
        else:
            rd = DmapRead(data, True)
            plain = list(rd.read_records())
            typed = list(rd.get_dmap_records)
    except DOCUMENTED as e:
        ctx.label("refused-" + type(e).__name__)
        return "refused", want
    except Exception as e:
        fail(f"undocumented {type(e).__name__}: {str(e)[:200]}")
    if want is None:
        fail(f"malformed bytes ({why}) were read as {len(typed)} records")
    check(len(typed) == len(want), lambda: f"{len(want)} blocks, {len(typed)} records read")
    for i, r in enumerate(want):
        names = [f[1] for f in r]
        if len(set(names)) != len(names):
            ctx.label("duplicate-names")
            r = R.collapse(r)
            m = dgen.diff_typed(typed[i], r, f"record {i}", order=False) if list(typed[i]) == [f[1] for f in r] else None
        else:
            m = dgen.diff_typed(typed[i], r, f"record {i}") or dgen.diff_plain(plain[i], r, f"record {i}")
        if m:
            fail(m)
    ctx.label("read-ok")
    return "read", want
