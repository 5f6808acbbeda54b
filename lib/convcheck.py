"""Common parts of the conversion checks: storing the Borealis data and running the converter."""
import numpy as np
from hypothesis import strategies as st
from lib import bgen as G, bspec as S, bh5, convmodel as M
from lib.harness import must, fail, check
from pydarnio import BorealisConvert

SF = st.sampled_from([1, 1, 1, 2, 10, 100, 3, 1000, 12345])


@st.composite
def case(draw, **kw):
    c = {"p": draw(G.conv_params(**kw)), "sf": draw(SF), "store": draw(st.sampled_from(["site", "array"])), "stated": draw(st.booleans()),
         "slice": draw(st.sampled_from([0, 1, 7, np.int64(3), np.uint32(2), "5"])), "by": draw(st.sampled_from(["radar", "radar+"]))}
    return c


def store(c, path, recs, store=None):
    p = c["p"]
    s = store or c["store"]
    if s == "site":
        bh5.write_site(path, recs, extra=c["by"] == "radar+")
    else:
        bh5.write_array(path, G.to_arrays(p["version"], p["ft"], recs), extra=c["by"] == "radar+")
    return s


def go(c, src, out, structure, **kw):
    p = c["p"]
    slc = dict(borealis_slice_id=c["slice"])
    if S.level(p["version"]) >= 5 and c["sf"] % 2:
        slc = {}
    if c["sf"] != 1:
        kw["scaling_factor"] = c["sf"]
    return BorealisConvert(src, p["ft"], out, borealis_file_structure=structure if c["stated"] else None, **slc, **kw)


def convert(c, ctx):
    """recs, converter, expected records, decoded file."""
    p = c["p"]
    G.classes(p, ctx)
    ctx.label(c["store"], "scaled" if c["sf"] != 1 else "unscaled")
    recs = G.build(p)
    src, out = ctx.path("in.hdf5"), ctx.path("out.dmap")
    s = store(c, src, recs)
    with must("converting representable data"):
        bc = go(c, src, out, s)
    want = M.expected(p, recs, src, c["sf"], int(c["slice"]))
    try:
        got = M.decode_file(out)
    except Exception as e:
        fail(f"converted file is not readable: {type(e).__name__}: {e}")
    return recs, bc, want, got


def compare(c, bc, want, got, names):
    for what, g in (("file", got), ("sdarn_dict", bc.sdarn_dict)):
        m = M.check_fields(g, want, names, what)
        if m:
            fail(m)
