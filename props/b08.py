from hypothesis import strategies as st
from lib.harness import Sub, must, check, refuses
from lib import bgen as G, bspec as S, bh5
from pydarnio import BorealisConvert, BorealisRead, BorealisRestructure, BorealisWrite, borealis_exceptions as bx
from pydarnio.borealis.borealis_array import BorealisArrayRead, BorealisArrayWrite
from pydarnio.borealis.borealis_site import BorealisSiteRead, BorealisSiteWrite
import h5py
import numpy as np
import os

RULE = ("generated data of every version, type and structure stored by an independent writer or written by pyDARNio, opened with the structure stated, not stated or "
        "misstated; hashes of supported, unsupported and foreign versions; trivial never")
ASSUMPTIONS = ["a data set labelled with another version is refused only when the field layouts of the two versions differ for its type"]
BOREALIS = tuple(v for v in vars(bx).values() if isinstance(v, type) and issubclass(v, Exception))
PATCH = ["", ".0", ".1", ".10", ".2.3", ".x"]
TAIL = ["", "-8-gabcdef0", "-dirty", "-0.7", "-v0.2", "-", "--"]
BADST = ["Site", "", "arrays", "ARRAY", "records", "rawacf", 0, False, "site ", "none"]
UNSUPPORTED = ["v0.8", "v0.1", "v0.0", "v1.0", "v1.5", "v1.7", "v0.55", "v0.10", "v0.77", "v0.70", "a1b2c3d", "0.5", "V0.5", "v0", "v0.", "v0.05", "v.5", "v0,5", "v0.5 ",
               " v0.5", "v", "g", "v0_5", "v0.6a", "vv0.6", "vo.6", "v0.6+1", "v00.6", "6", "None", "latest"]


def files(recs, arrays, structure, path, by):
    """Store the data of one structure at path; by 'radar' independently, by 'pydarnio' with the writer."""
    if structure == "site":
        bh5.write_site(path, recs, extra=by == "radar+")
    else:
        bh5.write_array(path, arrays, extra=by == "radar+")


@st.composite
def dcase(draw):
    p = draw(G.params(versions=S.VERSIONS, fts=S.FT, max_rec=3))
    p["version"] = p["version"].split("-")[0].split(".")[0] + "." + p["version"].split("-")[0].split(".")[1]
    p["version"] += draw(st.sampled_from(PATCH)) + draw(st.sampled_from(TAIL))
    return {"p": p, "structure": "site" if p["ft"] == "rawrf" else draw(st.sampled_from(["site", "array"])), "by": draw(st.sampled_from(["radar", "radar+"])), "badst": draw(st.sampled_from(BADST))}


def base(version):
    return ".".join(version.split("-")[0].split(".")[:2])


def detect(c, ctx):
    p, s = c["p"], c["structure"]
    v, ft = p["version"], p["ft"]
    other = "array" if s == "site" else "site"
    G.classes(p, ctx)
    ctx.label(s, base(v))
    recs = G.build(p)
    arrays = G.to_arrays(v, ft, recs) if ft in S.RESTRUCT else None
    data = recs if s == "site" else arrays
    path = ctx.path("in")
    files(recs, arrays, s, path, c["by"])
    with must("opening the file without its structure"):
        r = BorealisRead(path, ft)
    with must("opening the file with its structure"):
        rs = BorealisRead(path, ft, s)
        rd = (BorealisSiteRead if s == "site" else BorealisArrayRead)(path, ft)
    for x in (r, rs, rd):
        check(x.software_version == base(v), lambda: f"version {v} reported as {x.software_version}")
        got = x.records if s == "site" else x.arrays
        G.expect(G.diff_records(got, recs, "records") if s == "site" else G.diff(got, arrays, "arrays"))
    for x in (r, rs):
        check(x.borealis_file_structure == s, lambda: f"{s} file reported as {x.borealis_file_structure}")
    check(x.format is r.format is rd.format, "different formats for the same file")
    refuses(f"{s} file opened as {other}", bx.BorealisStructureError, lambda: BorealisRead(path, ft, other))
    refuses(f"{s} file given to the {other} reader", bx.BorealisStructureError, lambda: (BorealisArrayRead if s == "site" else BorealisSiteRead)(path, ft))
    out, out2, out3 = ctx.path("o1"), ctx.path("o2"), ctx.path("o3")
    with must("writing without the structure"):
        w = BorealisWrite(out, data, ft)
    with must("writing with the structure"):
        ws = BorealisWrite(out2, data, ft, s)
    for x, o in ((w, out), (ws, out2)):
        check(x.borealis_file_structure == s, lambda: f"{s} data written as {x.borealis_file_structure}")
        check(x.software_version == base(v), lambda: f"version {v} of the data reported as {x.software_version}")
        with h5py.File(o, "r") as f:
            check(("borealis_git_hash" in f.attrs) == (s == "array"), lambda: f"{s} data stored in the other structure")
    refuses("file opened with an unknown structure", bx.BorealisStructureError, lambda: BorealisRead(path, ft, c["badst"]))
    refuses("data written with an unknown structure", bx.BorealisStructureError, lambda: BorealisWrite(out3, data, ft, c["badst"]))
    refuses(f"{s} data written as {other}", bx.BorealisStructureError, lambda: BorealisWrite(out3, data, ft, other))
    refuses(f"{s} data given to the {other} writer", bx.BorealisStructureError, lambda: (BorealisArrayWrite if s == "site" else BorealisSiteWrite)(out3, data, ft))
    check(not os.path.exists(out3), "a refused write left a file")
    if ft in S.RESTRUCT:
        with must("restructuring"):
            rr = BorealisRestructure(path, out3, ft, other)
        check(rr.borealis_structure == s and rr.software_version == base(v), lambda: f"restructured as {rr.borealis_structure} {rr.software_version}")


EDITS = list("v0123456789. -_+abrx\n\t") + ["rc1", "beta", "\u0665", "..", "dev", "0."]


@st.composite
def edited(draw):
    """A supported version with one edit that makes it another one."""
    v = draw(st.sampled_from(S.VERSIONS))
    i, e = draw(st.integers(0, len(v))), draw(st.sampled_from(EDITS))
    h = v[:i] + e + v[i + draw(st.integers(0, 1)):]
    return h if base(h) not in S.VERSIONS else "v0.9"


@st.composite
def ucase(draw):
    c = draw(dcase())
    c["hash"] = draw(st.one_of(st.sampled_from(UNSUPPORTED), edited())) + draw(st.sampled_from(TAIL[:3] + PATCH[:3]))
    if base(c["hash"]) in S.VERSIONS:
        c["hash"] = "v0.9"
    c["what"] = draw(st.sampled_from(["version", "version", "number", "none", "ft", "structure", "empty", "structure", "structure", "rawrf", "nofile", "nohdf"]))
    c["bad"] = draw(st.sampled_from(["RAWACF", "Rawacf", "", "fitacf", "iqdat", "rawacf ", "site", "bfiq.hdf5", "antennas-iq", "dmap"]))
    return c


def unknown(c, ctx):
    p, s = c["p"], c["structure"]
    ft = p["ft"]
    ctx.label(c["what"], s)
    recs = G.build(p)
    what = c["what"]
    if what == "version":
        for r in recs.values():
            r["borealis_git_hash"] = c["hash"]
    elif what == "number":
        for r in recs.values():
            r["borealis_git_hash"] = np.float32(0.5)
    arrays = G.to_arrays(p["version"], ft, recs) if ft in S.RESTRUCT else None
    if what == "none":
        for r in recs.values():
            del r["borealis_git_hash"]
        if arrays:
            del arrays["borealis_git_hash"]
    data = recs if s == "site" else arrays
    path, out = ctx.path("in"), ctx.path("out")
    files(recs, arrays, s, path, "radar")
    if what == "empty":
        with h5py.File(path, "w"):
            pass
        data = {}
    elif what == "nohdf":
        with open(path, "wb") as f:
            f.write(b"not an HDF5 file")
    elif what == "nofile":
        os.remove(path)
    err = {"version": bx.BorealisVersionError, "number": bx.BorealisStructureError, "none": bx.BorealisStructureError, "empty": bx.BorealisStructureError,
           "ft": bx.BorealisFileTypeError, "rawrf": bx.BorealisFileTypeError, "structure": bx.BorealisStructureError, "nofile": OSError, "nohdf": OSError}[what]
    tft = "rawacf" if ft == "rawrf" else ft  # rawrf files have one structure only
    if what == "structure":
        refuses("read with an unknown structure", err, lambda: BorealisRead(path, ft, c["badst"]))
        refuses("write with an unknown structure", err, lambda: BorealisWrite(out, data, ft, c["badst"]))
        refuses("restructuring to an unknown structure", err, lambda: BorealisRestructure(path, out, tft, c["badst"]))
        refuses("conversion with an unknown structure", err, lambda: BorealisConvert(path, ft, out, borealis_slice_id=0, borealis_file_structure=c["badst"]))
    elif what == "rawrf":
        refuses("restructuring of rawrf", err, lambda: BorealisRestructure(path, out, "rawrf", "array"))
        refuses("restructuring of rawrf", err, lambda: BorealisRestructure(path, out, "rawrf", "site"))
    else:
        f1 = c["bad"] if what == "ft" else ft
        f2 = c["bad"] if what == "ft" else tft
        for st_ in (None, s):
            refuses(f"{what}: read", err, lambda: BorealisRead(path, f1, st_))
            refuses(f"{what}: conversion", err, lambda: BorealisConvert(path, f1, out, borealis_slice_id=0, borealis_file_structure=st_))
            if what not in ("nofile", "nohdf"):
                refuses(f"{what}: write", err, lambda: BorealisWrite(out, data, f1, st_))
        for direct in (BorealisSiteRead, BorealisArrayRead):
            if what in ("ft", "nofile", "nohdf", "empty") or (direct is BorealisSiteRead) == (s == "site"):
                refuses(f"{what}: {direct.__name__}", err, lambda: direct(path, f1))
        for direct in (BorealisSiteWrite, BorealisArrayWrite):
            if what in ("ft", "empty") or what not in ("nofile", "nohdf") and (direct is BorealisSiteWrite) == (s == "site"):
                refuses(f"{what}: {direct.__name__}", err, lambda: direct(out, data, f1))
        for t in ("site", "array"):
            refuses(f"{what}: restructuring", err, lambda: BorealisRestructure(path, out, f2, t))
    check(not os.path.exists(out), "a refused operation left a file")


@st.composite
def rcase(draw):
    c = draw(dcase())
    c["as"] = draw(st.sampled_from(S.VERSIONS)) + draw(st.sampled_from(PATCH[:3]))
    return c


def relabel(c, ctx):
    p, s, w = c["p"], c["structure"], c["as"]
    ft = p["ft"]
    recs = G.build(p)
    for r in recs.values():
        r["borealis_git_hash"] = w
    arrays = G.to_arrays(p["version"], ft, recs) if ft in S.RESTRUCT else None
    data = recs if s == "site" else arrays
    tab = S.site_fields if s == "site" else S.array_fields
    same = tab(p["version"], ft) == tab(w, ft)
    ctx.label("same layout" if same else "other layout", ft, f"{base(p['version'])} as {base(w)}")
    path, out = ctx.path("in"), ctx.path("out")
    files(recs, arrays, s, path, c["by"])
    if same:
        with must("reading a file of the version it is labelled with"):
            r = BorealisRead(path, ft)
        with must("writing data of the version it is labelled with"):
            x = BorealisWrite(out, data, ft)
        check(r.software_version == x.software_version == base(w), lambda: f"{w} reported as {r.software_version}, {x.software_version}")
        got = r.records if s == "site" else r.arrays
        G.expect(G.diff_records(got, recs, "records") if s == "site" else G.diff(got, arrays, "arrays"))
        return
    for st_ in (None, s):
        refuses("a file labelled with another version", BOREALIS, lambda: BorealisRead(path, ft, st_))
        refuses("data labelled with another version", BOREALIS, lambda: BorealisWrite(out, data, ft, st_))
    check(not os.path.exists(out), "a refused write left a file")


SUBS = [Sub("detect", dcase, detect, quick=350, thorough=10000), Sub("unknown", ucase, unknown, quick=500, thorough=15000),
        Sub("relabel", rcase, relabel, quick=400, thorough=10000)]
