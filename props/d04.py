from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R
from lib import dfuzz
import os
from pydarnio import DmapRead, SDarnRead, dmap_exceptions as dx

RULE = ("random valid files of 1-4 records, cut at EVERY byte position (each cut is one inner evaluation), read as stream or file, with and "
        "without the integrity pre-check; non-trivial: files with at least one cut inside a record, i.e. all")
ASSUMPTIONS = ["documented reading errors: EmptyFileError, CursorError, DmapDataError, DmapDataTypeError, ZeroByteError, NegativeByteError, "
               "MismatchByteError (dmap_exceptions); a plain ValueError is documented for bad values, which a cut does not make"]
DOCUMENTED = tuple(e for e in dfuzz.DOCUMENTED if e is not ValueError)


@st.composite
def case(draw):
    return {"recs": draw(dgen.records(4, max_scalars=4, max_arrays=3, shuffle=False)), "file": draw(st.integers(0, 9)) == 0,
            "pre": draw(st.integers(0, 3)) == 0}


def run(c, ctx):
    recs = c["recs"]
    data = R.encode(recs)
    ends, p = [0], 0
    for r in recs:
        p += len(R.enc_record(r))
        ends.append(p)
    p = ctx.path()
    positions = range(len(data) + 1)
    if len(data) > 3000:     # large files: all structural areas plus a stride
        keep = set(range(0, len(data) + 1, max(1, len(data) // 1500)))
        for e in ends:
            keep |= set(range(max(0, e - 40), min(len(data), e + 60) + 1))
        positions = sorted(keep)
    ctx.sub_evals = 0
    for cut in positions:
        ctx.sub_evals += 1
        b = data[:cut]
        try:
            if c["file"]:
                open(p, "wb").write(b)
                rd = DmapRead(p)
            else:
                rd = DmapRead(b, True)
            if c["pre"]:
                rd.test_initial_data_integrity()
            got = list(rd.read_records())
            typed = list(rd.get_dmap_records)
        except DOCUMENTED as e:
            check(cut not in ends or cut == 0, lambda: f"cut at {cut} is between records but reading raised {type(e).__name__}: {e}")
            if cut == 0:
                check(isinstance(e, dx.EmptyFileError), lambda: f"empty data raised {type(e).__name__}")
            continue
        except Exception as e:
            fail(f"cut at byte {cut} of {len(data)}: undocumented {type(e).__name__}: {str(e)[:200]}")
        check(cut in ends and cut > 0, lambda: f"cut at byte {cut} of {len(data)} (record ends {ends}) read without error as {len(typed)} records")
        k = ends.index(cut)
        check(len(typed) == k == len(got), lambda: f"cut after {k} records gave {len(typed)}")
        for i in range(k):
            m = dgen.diff_typed(typed[i], recs[i], f"record {i}") or dgen.diff_plain(got[i], recs[i], f"record {i}")
            if m:
                fail(m)
    dgen.labels(recs, ctx)


SUBS = [Sub("truncate", case, run, 420, 8000)]
