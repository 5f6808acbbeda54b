from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5
from collections import OrderedDict
import numpy as np

RULE = ("generated site records (every version, file type, ragged sizes, rich text, special floats) written and read; a case is non-trivial "
        "when it has at least one record (all have); per case the file is also read and written by an independent h5py implementation")
ASSUMPTIONS = ["output path does not exist before the write (h5py appends to existing files)", "text has no NUL characters",
               "attributes below HDF5's 64 KiB limit"]


@st.composite
def case(draw, **kw):
    p = draw(G.params(fts=S.FT, **kw))
    return {"p": p, "comp": draw(G.COMP), "direct": draw(st.booleans()), "ws": draw(st.sampled_from(["site", None])),
            "rs": draw(st.sampled_from(["site", None])), "order": draw(st.integers(0, 5)), "vary": draw(st.booleans()),
            "layout": draw(st.booleans()), "extra": draw(st.booleans())}


def data(c):
    p = c["p"]
    recs = G.build(p)
    rng = np.random.Generator(np.random.PCG64(p["seed"] + 1))
    if c["vary"]:  # any field may differ from record to record in a site file
        other = G.build(dict(p, seed=p["seed"] ^ 0x5555, text="rich"))
        sh = S.shared(p["version"], p["ft"]) - {"borealis_git_hash", "num_samps", "num_ranges"} if p["ft"] != S.D else \
            {k for k, (kind, t) in S.site_fields(p["version"], p["ft"]).items() if kind == "a"} - {"borealis_git_hash", "num_samps"}
        for i, (a, b) in enumerate(zip(recs.values(), other.values())):
            if i % 2:
                a.update({k: b[k] for k in sh})
    names = list(recs)
    if c["order"] == 0:
        rng.shuffle(names)
    if c["layout"]:
        recs = OrderedDict((k, {f: G.weird_layout(v, rng) for f, v in r.items()}) for k, r in recs.items())
    return OrderedDict((k, recs[k]) for k in names)


def rw(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    ctx.label(f"comp={c['comp']}")
    recs = data(c)
    want = OrderedDict(sorted((k, G.snapshot(v)) for k, v in recs.items()))
    path = ctx.path("a.hdf5")
    given_recs = dict(recs) if c["order"] == 1 else recs
    with must("writing valid site records"):
        w = G.writer(path, given_recs, p["ft"], "site" if c["direct"] else c["ws"], c["comp"], c["direct"])
    raw = bh5.read_site(path)
    bh5.check_compression(path, c["comp"], None)
    asked = None if c["comp"] == "default" else c["comp"]
    check(w.compression == asked, lambda: f"the writer reports compression {w.compression!r}, asked for {asked!r}")
    G.expect(G.diff_records(raw, want, "records stored in the file"))
    if not c["direct"]:
        check(w.borealis_file_structure == "site", f"writer says structure {w.borealis_file_structure}")
    with must("reading the file written"):
        r = G.reader(path, p["ft"], "site" if c["direct"] else c["rs"], c["direct"])
    G.expect(G.diff_records(r.records, want, "records read"))
    check(list(r.record_names) == list(want), lambda: f"record_names {r.record_names} != {list(want)}")


def foreign(c, ctx):
    """A file as a radar (or deepdish) leaves it, read by pyDARNio and written again."""
    p = c["p"]
    G.classes(p, ctx)
    recs = data(c)
    want = OrderedDict(sorted((k, G.snapshot(v)) for k, v in recs.items()))
    path = ctx.path("a.hdf5")
    bh5.write_site(path, recs, c["comp"] if c["comp"] not in ("default", "zlib") else None, extra=c["extra"])
    with must("reading a valid site file"):
        r = G.reader(path, p["ft"], "site" if c["direct"] else c["rs"], c["direct"])
    G.expect(G.diff_records(r.records, want, "records read"))
    out = ctx.path("b.hdf5")
    with must("writing the records read"):
        G.writer(out, r.records, p["ft"], "site" if c["direct"] else c["ws"], c["comp"], c["direct"])
    with must("reading them again"):
        r2 = G.reader(out, p["ft"], c["rs"])
    G.expect(G.diff_records(r2.records, want, "records after read, write and read"))


@st.composite
def legacy_case(draw):
    return {"p": dict(draw(G.params(fts=(S.A, S.B), versions=("v0.4", "v0.5", "v0.6"))), ppo="empty"), "extra": draw(st.booleans()),
            "which": draw(st.integers(0, 15))}


def legacy(c, ctx):
    """deepdish stored an empty pulse_phase_offset as its dimensions (int64 [0]): it reads as no phase offset."""
    p = c["p"]
    G.classes(p, ctx)
    recs = G.build(p)
    want = G.snapshot(recs)
    for i, (k, r) in enumerate(recs.items()):
        if c["which"] >> i & 1:
            ctx.label("legacy-record")
            r["pulse_phase_offset"] = np.zeros(1, np.int64)
            want[k]["pulse_phase_offset"] = np.zeros(len(r["pulses"]), np.float32)
    path = ctx.path("a.hdf5")
    bh5.write_site(path, recs, None, extra=c["extra"])
    with must("reading a site file with pulse_phase_offset stored as its dimensions"):
        r = G.reader(path, p["ft"])
    G.expect(G.diff_records(r.records, want, "records read"))


SUBS = [Sub("rw", case, rw, quick=700, thorough=20000), Sub("foreign", case, foreign, quick=300, thorough=8000),
        Sub("legacy", legacy_case, legacy, quick=80, thorough=1500), Sub("long", lambda: case(long=True), rw, quick=4, thorough=200)]
