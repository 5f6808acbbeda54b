from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail, refuses
from lib import dgen, refdmap as R, dfuzz
import struct
from pydarnio import DmapRead, SDarnRead, dmap_exceptions as dx

RULE = ("valid files, files with mutated block sizes, cuts, insertions and arbitrary block-size chains, each judged by an independent "
        "block-tiling walk; start positions other than 0 must be refused; every case is non-trivial")
ASSUMPTIONS = ["documented reading errors as for D05"]


@st.composite
def case(draw):
    if draw(st.booleans()):
        data, desc = draw(dfuzz.mutated(4))
    elif draw(st.booleans()):
        data, desc = R.encode(draw(dgen.records(4))), ["valid"]
    else:  # chains of bare blocks: only sizes matter to the pre-check
        sizes = draw(st.lists(st.one_of(st.integers(8, 40), st.integers(-2, 12)), min_size=1, max_size=6))
        b = b"".join((struct.pack("<ii", 65537, s) + b"\7" * 64)[:max(s, 0) if s >= 8 or draw(st.booleans()) else 8] for s in sizes)
        b += draw(st.sampled_from([b"", b"", b"\0", b"\0" * 4, b"\0" * 7, b"\1" * 8]))
        data, desc = b, ["chain"]
    if not data:
        data = b"\0"
    return {"data": data, "desc": desc, "start": draw(st.integers(-20, 200)), "sdarn": draw(st.booleans()), "file": draw(st.integers(0, 4)) == 0}


def run(c, ctx):
    data = c["data"]
    cls = SDarnRead if c["sdarn"] else DmapRead

    def reader():
        if c["file"]:
            p = ctx.path()
            open(p, "wb").write(data)
            return cls(p)
        return cls(data, True)
    ok = R.blocks_tile(data)
    ctx.label("tiles" if ok else "does-not-tile")
    with must("opening"):
        rd = reader()
    if ok:
        with must("integrity check of a file tiled by its blocks"):
            rd.test_initial_data_integrity()
        check(rd.cursor == 0, lambda: f"after the integrity check the reader is at {rd.cursor}")

        def outcome(r):
            try:
                return "ok", list(r.read_records()), list(r.get_dmap_records)
            except Exception as e:
                return "err", type(e).__name__, str(e)
        with must("opening"):
            fresh = reader()
        a, b = outcome(rd), outcome(fresh)
        check(a[0] == b[0], lambda: f"reading after the integrity check: {a[:2]!r:.200}, without: {b[:2]!r:.200}")
        if a[0] == "ok":
            ctx.label("then-read")
            check(len(a[2]) == len(b[2]), "integrity check changed the number of records")
            want = R.decode(data)
            for i, r in enumerate(want):
                names = [f[1] for f in r]
                if len(set(names)) == len(names):
                    m = dgen.diff_typed(a[2][i], r, f"record {i} after the integrity check") or dgen.diff_plain(a[1][i], r, f"record {i}")
                    if m:
                        fail(m)
        else:
            check(a[1] == b[1], lambda: f"reading after the integrity check fails with {a[1]}, without with {b[1]}")
    else:
        e = refuses("integrity check of a file its blocks do not tile", dfuzz.DOCUMENTED, rd.test_initial_data_integrity)
        ctx.label("refused-" + type(e).__name__)
    if c["start"] != 0:
        with must("opening"):
            rd = reader()
        rd.cursor = c["start"]
        refuses(f"integrity check from position {c['start']}", dx.CursorError, rd.test_initial_data_integrity)


SUBS = [Sub("precheck", case, run, 4000, 80000)]
