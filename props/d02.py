from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R
import numpy as np
from pydarnio import DmapRead, DmapWrite

RULE = ("random abstract records encoded by an independent encoder written from RST RFC 0006 and compared byte for byte with "
        "what the writer produces (write), and decoded by the library and compared field by field (read); non-trivial: every "
        "generated case, all hold at least one field")
ASSUMPTIONS = ["the reference encoder/decoder (lib/refdmap.py) states the published format",
               "files to be read have at least one scalar and one array per record and no empty array but slist (reader's documented checks)"]


@st.composite
def wcase(draw):
    recs = draw(st.lists(st.one_of(dgen.record(), dgen.record(max_arrays=1, max_scalars=8)), min_size=1, max_size=4))
    if draw(st.integers(0, 4)) == 0:      # records of scalars only or of arrays only
        k = draw(st.sampled_from("sa"))
        recs = [[f for f in r if f[0] == k] for r in recs]
        for r in recs:
            if not r:
                r.append(("s", "x", 2, 1) if k == "s" else ("a", "x", 2, np.ones(2, np.int16)))
    return {"recs": recs, "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS + ["py", "list"]), min_size=1, max_size=6)),
            "typed": draw(st.booleans()), "file": draw(st.booleans())}


def write(c, ctx):
    dgen.labels(c["recs"], ctx)
    want = R.encode(c["recs"])
    src = [(dgen.present_dmap if c["typed"] else dgen.present_dict)(r, c["how"]) for r in c["recs"]]
    with must("writing valid records"):
        if c["file"]:
            p = ctx.path()
            DmapWrite(src).write_dmap(p)
            got = open(p, "rb").read()
        else:
            got = bytes(DmapWrite(src).write_dmap_stream())
    if got != want:
        try:
            d = R.decode(got, True)
        except R.Bad as e:
            fail(f"written bytes are not DMap blocks: {e}")
        for i, (a, b) in enumerate(zip(d, c["recs"])):
            b = dgen.in_file_order(b)
            for x, y in zip(a, b):
                check(x[:3] == y[:3] and R.encode([[x]]) == R.encode([[y]]), lambda: f"record {i}: written {x!r:.300}, want {y!r:.300}")
        k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        fail(f"written bytes differ from the published encoding at byte {k} (lengths {len(got)}, {len(want)})")


@st.composite
def rcase(draw):
    recs = draw(dgen.records(4, shuffle=False))
    if draw(st.integers(0, 7)) == 0:
        for f in recs[0]:
            if f[1] == "slist" and f[3].size == 0:
                i = recs[0].index(f)
                recs[0][i] = ("a", "slist", f[2], np.zeros(draw(st.sampled_from([[0], [0, 3], [2, 0]])), f[3].dtype))
    return {"recs": recs, "file": draw(st.booleans()), "kind": draw(st.sampled_from(["bytes", "bytearray"])),
            "integrity": draw(st.booleans())}


def read(c, ctx):
    dgen.labels(c["recs"], ctx)
    data = R.encode(c["recs"])
    with must("reading a well-formed file"):
        if c["file"]:
            p = ctx.path()
            open(p, "wb").write(data)
            rd = DmapRead(p)
        else:
            rd = DmapRead(data if c["kind"] == "bytes" else bytearray(data), True)
        if c["integrity"]:
            rd.test_initial_data_integrity()
        plain = list(rd.read_records())
        typed = list(rd.get_dmap_records)
    check(len(typed) == len(c["recs"]) == len(plain), lambda: f"{len(c['recs'])} blocks encoded, {len(typed)} records read")
    for i, r in enumerate(c["recs"]):
        for m in (dgen.diff_typed(typed[i], r, f"record {i}"), dgen.diff_plain(plain[i], r, f"record {i}")):
            if m:
                fail(m)


@st.composite
def lcase(draw):
    return {"large": draw(dgen.large()), "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS + ["py", "list"]), min_size=1, max_size=3)), "typed": draw(st.booleans()),
            "file": draw(st.booleans()), "kind": draw(st.sampled_from(["bytes", "bytearray"])), "integrity": draw(st.booleans())}


def large(c, ctx):
    c = dict(c, recs=dgen.build_large(c["large"]))
    ctx.label("large-" + c["large"]["kind"])
    write(c, ctx)
    read(c, ctx)


def _wex():
    from props.d01 import _ex
    for e in _ex():
        yield {"recs": e["recs"], "how": e["how"], "typed": e["typed"], "file": False}


SUBS = [Sub("write", wcase, write, 1600, 30000, examples=_wex), Sub("read", rcase, read, 1600, 30000), Sub("large", lcase, large, 80, 3000)]
