from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5
from pydarnio import BorealisRestructure
import numpy as np
import os

RULE = ("generated records stored by an independent writer (or pyDARNio) in either structure, restructured file to file, to the same structure, and back; "
        "trivial with one record")
ASSUMPTIONS = ["output path does not exist before a restructuring to the other structure"]


@st.composite
def case(draw, **kw):
    return {"p": draw(G.params(**kw)), "comp": draw(st.sampled_from(["default", None, "gzip", "lzf", "zlib"])), "start": draw(st.sampled_from(["site", "array"])),
            "by": draw(st.sampled_from(["pydarnio", "radar", "radar+"])), "same": draw(st.integers(0, 5)) == 0,
            "link": draw(st.sampled_from([None, None, None, "input"])), "exists": draw(st.sampled_from([None, None, "text", "hdf5"]))}


def run(c, ctx):
    p = c["p"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    ctx.label(c["start"])
    ctx.trivial = len(p["nseq"]) == 1
    recs = G.build(p)
    arrays = G.to_arrays(v, ft, recs)
    src, dst, back = ctx.path("src"), ctx.path("dst"), ctx.path("back")
    start, other = c["start"], "array" if c["start"] == "site" else "site"
    if c["by"] == "pydarnio":
        with must("writing the input"):
            G.writer(src, recs if start == "site" else arrays, ft, start, None)
    elif start == "site":
        bh5.write_site(src, recs, extra=c["by"] == "radar+")
    else:
        bh5.write_array(src, arrays, extra=c["by"] == "radar+")
    kw = {} if c["comp"] == "default" else {"hdf5_compression": c["comp"]}
    if c["link"] == "input":
        os.rename(src, src + ".real")
        os.symlink(src + ".real", src)

    def verify(path, structure, what):
        raw = bh5.read_site(path) if structure == "site" else bh5.read_array(path)
        if structure == "site":
            G.expect(G.diff_records(raw, recs, f"{what}: stored records"))
        else:
            G.expect(G.diff(raw, arrays, f"{what}: stored arrays"))
        with must(f"{what}: reading it"):
            r = G.reader(path, ft)
            rs = G.reader(path, ft, structure)
            ra, rr = r.arrays, r.records
        check(r.borealis_file_structure == structure, lambda: f"{what}: read as {r.borealis_file_structure}")
        G.expect(G.diff(ra, arrays, f"{what}: arrays"))
        G.expect(G.diff_records(rr, recs, f"{what}: records"))
        G.expect(G.diff_records(rs.records, recs, f"{what}: records (structure stated)"))
    if c["same"]:
        ctx.label("same-structure")
        if c["exists"]:
            with open(dst, "wb") as f:
                f.write(b"other " * 30000 if c["exists"] == "text" else open(src, "rb").read()[:-7] + b"garbage" * 999)
        with must("restructuring to the same structure"):
            BorealisRestructure(src, dst, ft, start, **kw)
        check(not os.path.samefile(src, dst), "the copy is the same file as the input")
        verify(dst, start, "copy")
        return
    with must("asking the input for the other structure"):
        inmem = G.reader(src, ft)
        inmem = inmem.arrays if other == "array" else inmem.records
    with must(f"restructuring to {other}"):
        BorealisRestructure(src, dst, ft, other, **kw)
    verify(dst, other, f"restructured to {other}")
    bh5.check_compression(dst, c["comp"], None)
    with must("reading the restructured file"):
        got = G.reader(dst, ft)
    if other == "array":
        G.expect(G.diff(got.arrays, inmem, "file against in-memory arrays"))
    else:
        G.expect(G.diff_records(got.records, inmem, "file against in-memory records"))
    with must(f"restructuring back to {start}"):
        BorealisRestructure(dst, back, ft, start, **kw)
    verify(back, start, f"restructured back to {start}")
    bh5.check_compression(back, c["comp"], None)


@st.composite
def legacy_case(draw):
    start = draw(st.sampled_from(["site", "array"]))
    return {"p": dict(draw(G.params(fts=(S.A, S.B), versions=("v0.4", "v0.5", "v0.6") if start == "site" else ("v0.6",))), ppo="empty"), "start": start,
            "extra": draw(st.booleans())}


def legacy(c, ctx):
    """A file whose empty pulse_phase_offset was stored as its dimensions, as deepdish did."""
    p, start = c["p"], c["start"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    ctx.label("legacy " + start)
    recs = G.build(p)
    n = len(recs)
    src, dst, back = ctx.path("src"), ctx.path("dst"), ctx.path("back")
    if start == "site":
        for r in recs.values():
            r["pulse_phase_offset"] = np.zeros(1, np.int64)
        bh5.write_site(src, recs, extra=c["extra"])
        for r in recs.values():
            r["pulse_phase_offset"] = np.zeros(len(r["pulses"]), np.float32)
        arrays = G.to_arrays(v, ft, recs)
    else:
        arrays = G.to_arrays(v, ft, recs)
        arrays["pulse_phase_offset"] = np.array([n, 0], np.int64)
        bh5.write_array(src, arrays, extra=c["extra"])
        for r in recs.values():
            r["pulse_phase_offset"] = np.zeros(0, np.float32)
        arrays["pulse_phase_offset"] = np.zeros((n, 0), np.float32)
    other = "array" if start == "site" else "site"
    with must("reading the file"):
        r = G.reader(src, ft)
        rr, ra = r.records, r.arrays
    G.expect(G.diff_records(rr, recs, "records of the file"))
    G.expect(G.diff(ra, arrays, "arrays of the file"))
    with must(f"restructuring to {other}"):
        BorealisRestructure(src, dst, ft, other)
    with must(f"restructuring back to {start}"):
        BorealisRestructure(dst, back, ft, start)
    for path in (dst, back):
        with must("reading the restructured file"):
            r = G.reader(path, ft)
            rr, ra = r.records, r.arrays
        G.expect(G.diff_records(rr, recs, "records of the restructured file"))
        G.expect(G.diff(ra, arrays, "arrays of the restructured file"))


SUBS = [Sub("restructure", case, run, quick=300, thorough=8000), Sub("legacy", legacy_case, legacy, quick=100, thorough=2000), Sub("long", lambda: case(long=True), run, quick=3, thorough=200)]
