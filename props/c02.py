from lib.harness import Sub, check
from lib import convcheck as C, convmodel as M
import numpy as np

RULE = ("random representable bfiq data of every version, 1-4 records, 1-3 beams, 1-4 sequences, 1-3 antenna arrays, any integer scaling factor including "
        "saturating ones, compared with the formula in double precision; trivial when one sequence and one antenna array")
ASSUMPTIONS = ["samples are finite; a sample within 1e-6 (relative) of an integer may be truncated either way"]


def run(c, ctx):
    p = c["p"]
    ctx.trivial = p["nant"] == 1 and max(p["nseq"]) == 1
    recs, bc, want, got = C.convert(c, ctx)
    if any((np.abs(e["data"].real) > 32768).any() for _, _, e in want):
        ctx.label("saturating")
    check(bc.sdarn_filetype == "iqdat" and bc.scaling_factor == c["sf"], "converter reports another type or scaling factor")
    C.compare(c, bc, want, got, M.BULK["iqdat"])
    for g, (name, b, e) in zip(got, want):
        data = np.asarray(g["data"])
        ends = [int(o) + int(n) for o, n in zip(g["toff"], g["tsze"])]
        check(list(g["toff"]) == [0] + ends[:-1] and ends[-1] == data.size, lambda: f"offsets {g['toff']} and sizes {g['tsze']} do not tile {data.size} samples")


SUBS = [Sub("values", lambda: C.case(fts=("bfiq",)), run, quick=400, thorough=12000), Sub("long", lambda: C.case(fts=("bfiq",), long=True), run, quick=4, thorough=200)]
