from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R
import numpy as np
from pydarnio import DmapRead, DmapWrite

RULE = ("random lists of 1-5 records (1-5 scalars, 1-4 arrays, all DMap types incl. extremes, NaN, non-ASCII text, "
        "1-7 dimensions, empty slist) in random memory layouts and field orders, as dictionaries or typed records, via file "
        "or stream; every case is non-trivial (at least one scalar and one array are compared bit for bit)")
ASSUMPTIONS = ["records have at least one scalar and one array (what the reader requires)"]


@st.composite
def case(draw):
    recs = draw(dgen.records(5))
    return {"recs": recs,
            "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS + ["py", "list"]), min_size=1, max_size=6)),
            "typed": draw(st.booleans()), "via": draw(st.sampled_from(["file", "file_ctor", "stream", "stream_arg"])),
            "read": draw(st.sampled_from(["file", "stream"])),
            "container": draw(st.sampled_from(["list", "list", "tuple"]))}


@st.composite
def lcase(draw):
    c = {"large": draw(dgen.large()), "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS + ["py", "list"]), min_size=1, max_size=3)), "typed": draw(st.booleans()),
         "via": draw(st.sampled_from(["file", "file_ctor", "stream", "stream_arg"])), "read": draw(st.sampled_from(["file", "stream"])), "container": "list"}
    return c


def large(c, ctx):
    ctx.label(c["large"]["kind"])
    run(dict(c, recs=dgen.build_large(c["large"])), ctx)


def run(c, ctx):
    recs = c["recs"]
    dgen.labels(recs, ctx)
    ctx.label("via-" + c["via"], "typed" if c["typed"] else "dict")
    src = [(dgen.present_dmap if c["typed"] else dgen.present_dict)(r, c["how"]) for r in recs]
    path = ctx.path("t.dmap")
    with must("writing valid records"):
        if c["via"] == "file":
            DmapWrite(src).write_dmap(path)
        elif c["via"] == "file_ctor":
            DmapWrite(src, path).write_dmap()
        elif c["via"] == "stream":
            data = bytes(DmapWrite(src).write_dmap_stream())
        else:
            data = bytes(DmapWrite().write_dmap_stream(src))
    if c["via"].startswith("file"):
        data = open(path, "rb").read()
    elif c["read"] == "file":
        open(path, "wb").write(data)
    with must("reading back written records"):
        rd = DmapRead(path) if c["read"] == "file" else DmapRead(data, True)
        plain = list(rd.read_records())
        typed = list(rd.get_dmap_records)
        again = list(rd.get_records)
    check(len(plain) == len(recs) == len(typed) == len(again), lambda: f"{len(recs)} records written, {len(plain)} read")
    for i, r in enumerate(recs):
        for m in (dgen.diff_typed(typed[i], r, f"typed record {i}"), dgen.diff_plain(plain[i], r, f"record {i}"),
                  dgen.diff_plain(again[i], r, f"get_records {i}")):
            if m:
                fail(m)
    with must("writing again the records that were read"):
        b1 = bytes(DmapWrite(plain).write_dmap_stream())
        b2 = bytes(DmapWrite(typed).write_dmap_stream())
    check(b2 == data, "writing the typed records read back gives different bytes")
    check(b1 == data, "writing the plain records read back gives different bytes")


def _ex():
    base = {"how": ["c"], "typed": False, "via": "file", "read": "file", "container": "list"}
    A = ("a", "arr", 3, np.arange(6, dtype=np.int32).reshape(2, 3))
    rows = [
        [[("s", "x", 1, -5), A]], [[("s", "x", 1, 127), A]], [[("s", "naïve", 2, 3), A]], [[("s", "x", 9, "Møre"), A]],
        [[A, ("s", "x", 2, 7)]], [[("s", "x", 2, 7), ("a", "slist", 1, np.zeros([0], np.int8))]],
        [[("s", "x", 2, 7), A], [("s", "x", 2, 8), A]],
    ]
    for r in rows:
        yield dict(base, recs=r)
        yield dict(base, recs=r, typed=True, via="stream", read="stream")
    yield dict(base, recs=rows[0], how=["big"])
    yield dict(base, recs=rows[0], how=["f"], typed=True)


SUBS = [Sub("roundtrip", case, run, 2400, 40000, examples=_ex), Sub("large", lcase, large, quick=60, thorough=2000)]
