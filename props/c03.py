from lib.harness import Sub, check
from lib import convcheck as C, convmodel as M

RULE = ("random representable rawacf and bfiq data of every version, 1-4 records, 1-3 beams each, every station, every metadata field compared with the value "
        "of the record and beam; trivial with one record of one beam")
ASSUMPTIONS = ["metadata within the range of the SuperDARN field; at most 16 transmit antennas; roundings as stated in lib/convmodel.py"]


def run(c, ctx):
    p = c["p"]
    ctx.trivial = len(p["nseq"]) == 1 and p["nbeams"][0] == 1
    recs, bc, want, got = C.convert(c, ctx)
    names = sorted(set(want[0][2]) - set(M.BULK[M.TARGET[p["ft"]]]))
    C.compare(c, bc, want, got, names)
    sid = next(iter(recs.values())).get("slice_id", c["slice"])
    check(int(bc.borealis_slice_id) == int(sid), lambda: f"slice id {bc.borealis_slice_id}, want {sid}")
    for i, (g, (name, b, e)) in enumerate(zip(got, want)):
        extra = set(g) - set(e)
        check(not extra, lambda: f"record {i}: fields {sorted(extra)} without a source")


SUBS = [Sub("metadata", lambda: C.case(), run, quick=500, thorough=15000), Sub("long", lambda: C.case(long=True), run, quick=4, thorough=200)]
