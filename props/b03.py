from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5
from pydarnio import BorealisRead, BorealisRestructure, borealis_exceptions as bx
import numpy as np
import os

RULE = ("generated records whose shared fields agree, with ragged numbers of sequences, beams and blanked samples, taken site -> array -> site "
        "(and array -> site -> array) through files and views; the case is trivial with one record")


@st.composite
def case(draw, **kw):
    return {"p": draw(G.params(**kw)), "hops": draw(st.lists(st.sampled_from(["view", "file"]), min_size=1, max_size=3)), "start": draw(st.sampled_from(["site", "array"])),
            "shuffle": draw(st.sampled_from([0, 0, 1, 2, 3])), "layout": draw(st.sampled_from([0, 0, 1, 2, 3, 4]))}


def run(c, ctx):
    p = c["p"]
    ft = p["ft"]
    G.classes(p, ctx)
    ctx.trivial = len(p["nseq"]) == 1
    recs = G.build(p)
    want = G.snapshot(recs)
    wanta = G.to_arrays(p["version"], ft, want)
    kind = c["start"]
    path = ctx.path()
    cur = G.given(recs, c["shuffle"]) if kind == "site" else G.to_arrays(p["version"], ft, recs)
    cur = G.relaid(cur, c["layout"])
    for i, hop in enumerate(c["hops"] * 2):
        with must(f"hop {i} ({kind}, {hop})"):
            path = ctx.path()
            obj = G.writer(path, cur, ft, kind)
            if hop == "file":
                obj = G.reader(path, ft, kind)
            other = "array" if kind == "site" else "site"
            cur = obj.arrays if other == "array" else obj.records
        kind = other
        if kind == "site":
            G.expect(G.diff_records(cur, want, f"records after hop {i}"))
        else:
            G.expect(G.diff(cur, wanta, f"arrays after hop {i}"))


@st.composite
def mixed_case(draw):
    p = draw(G.params(fts=("bfiq", "antennas_iq"), versions=[v for v in S.VERSIONS if S.level(v) >= S.level("v0.6")]).filter(lambda p: len(p["nseq"]) > 1))
    p["ppo"] = "full"
    n = len(p["nseq"])
    return {"p": p, "empty": draw(st.lists(st.booleans(), min_size=n, max_size=n).filter(lambda x: 0 < sum(x) < n)), "how": draw(st.sampled_from(["view", "file", "restructure"]))}


def run_mixed(c, ctx):
    """Records of which some have pulse phase offsets and others none have no array layout: refused, or kept exactly."""
    p, ft = c["p"], c["p"]["ft"]
    G.classes(p, ctx)
    recs = G.build(p)
    for e, r in zip(c["empty"], recs.values()):
        if e:
            r["pulse_phase_offset"] = np.zeros(0, np.float32)
    want = G.snapshot(recs)
    path, out = ctx.path("in"), ctx.path("out")
    bh5.write_site(path, recs)

    def restructure():
        if c["how"] == "restructure":
            BorealisRestructure(path, out, ft, "array")
            return BorealisRead(out, ft, "array")
        obj = G.writer(ctx.path(), recs, ft, "site") if c["how"] == "view" else G.reader(path, ft, "site")
        return G.writer(out, obj.arrays, ft, "array")

    with must("restructuring"):
        try:
            rd = restructure()
        except bx.BorealisRestructureError:
            ctx.label("refused")
            check(not os.path.exists(out), "a refused restructuring left an output file")
            return
    with must("records of the restructured data"):
        got = rd.records
    G.expect(G.diff_records(got, want, "records with and without pulse phase offsets"))


SUBS = [Sub("chain", case, run, quick=600, thorough=20000), Sub("mixed", mixed_case, run_mixed, quick=60, thorough=1500), Sub("long", lambda: case(long=True), run, quick=3, thorough=200)]
