from hypothesis import strategies as st
from lib.harness import Sub, check
from lib import convcheck as C, convmodel as M

RULE = ("random representable rawacf data of every version, 1-4 records, 1-3 beams, stored site or array structured, any integer scaling factor, compared with the "
        "formulas in double precision; trivial when one range and one lag")
ASSUMPTIONS = ["scaled magnitudes between 1e-15 and 1e15 (single precision), relative tolerance 1e-5"]


def run(c, ctx):
    p = c["p"]
    ctx.trivial = p["nranges"] == 1 and p["nlags"] == 2
    recs, bc, want, got = C.convert(c, ctx)
    check(bc.sdarn_filetype == "rawacf" and bc.scaling_factor == c["sf"], "converter reports another type or scaling factor")
    C.compare(c, bc, want, got, M.BULK["rawacf"])


@st.composite
def case(draw, **kw):
    c = draw(C.case(fts=("rawacf",), **kw))
    c["p"] = dict(c["p"], nonfinite=draw(st.sampled_from([False, False, False, "nan"])))    # samples that are missing
    return c


SUBS = [Sub("values", case, run, quick=400, thorough=12000), Sub("long", lambda: case(long=True), run, quick=4, thorough=200)]
