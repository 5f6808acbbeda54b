from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import bgen as G, convcheck as C, dgen, refdmap as R, sdgen
from pydarnio import SDarnRead, DmapRead
import os

RULE = ("random representable rawacf and bfiq data of every version converted to an absent or existing output path (empty, garbage, an earlier conversion, longer or "
        "shorter), file read with the strict reader and decoded independently; trivial when the output did not exist and there is one record")
BEFORE = ["absent", "empty", "garbage", "earlier", "long", "symlink"]


@st.composite
def case(draw, **kw):
    c = draw(C.case(**kw))
    c["before"] = draw(st.sampled_from(BEFORE))
    return c


def run(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    ctx.label("output " + c["before"])
    ctx.trivial = c["before"] == "absent" and len(p["nseq"]) == 1
    recs = G.build(p)
    src, out = ctx.path("in"), ctx.path("out")
    s = C.store(c, src, recs)
    if c["before"] == "earlier":
        with must("converting"):
            C.go(c, src, out, s)
    elif c["before"] == "symlink":
        with open(out + ".t", "wb") as f:
            f.write(b"\\0" * 100)
        os.symlink(out + ".t", out)
    elif c["before"] != "absent":
        with open(out, "wb") as f:
            f.write({"empty": b"", "garbage": b"\\1\\0\\1\\0\\0\\0", "long": b"\\1" * 300000}[c["before"]])
    with must("converting"):
        bc = C.go(c, src, out, s)
    fmt = bc.sdarn_filetype
    check(fmt == {"rawacf": "rawacf", "bfiq": "iqdat"}[p["ft"]], lambda: f"converted to {fmt}")
    data = open(out, "rb").read()
    try:
        abstract = R.decode(data, strict_id=True)
    except R.Bad as e:
        fail(f"converted file is no DMap file: {e}")
    check(sdgen.judge(fmt, abstract) is None, lambda: f"converted records are no {fmt} records: {sdgen.judge(fmt, abstract)}")
    with must(f"read_{fmt} of the converted file"):
        rd = SDarnRead(out)
        got = getattr(rd, "read_" + fmt)()
    with must("plain read of the converted file"):
        plain = DmapRead(out).read_records()
    check(len(got) == len(plain) == len(abstract) == len(bc.sdarn_dict) == len(bc.sdarn_dmap_records),
          lambda: f"{len(got)} records read, {len(abstract)} in the file, {len(bc.sdarn_dict)} and {len(bc.sdarn_dmap_records)} reported")
    for i, a in enumerate(abstract):
        m = dgen.diff_plain(got[i], a, f"record {i} read") or dgen.diff_plain(plain[i], a, f"record {i} plainly read") or \
            dgen.diff_typed(bc.sdarn_dmap_records[i], a, f"reported DMap record {i}")
        if m:
            fail(m)
        d = bc.sdarn_dict[i]
        check(set(d) == {f[1] for f in a}, lambda: f"record {i}: reported fields {sorted(set(d) ^ {f[1] for f in a})} differ from the file")
        for kind, name, code, v in a:
            if kind == "a":
                m = dgen.diff_array(d[name], v, f"reported record {i}[{name!r}]")
            else:
                m = None if type(d[name]) is (str if code == 9 else R.TYPES[code][1]) and dgen.same_scalar(code, d[name], v) else \
                    f"reported record {i}[{name!r}]: {d[name]!r} ({type(d[name]).__name__}), file {v!r}"
            if m:
                fail(m)


SUBS = [Sub("file", case, run, quick=300, thorough=9000), Sub("long", lambda: case(long=True), run, quick=4, thorough=200)]
