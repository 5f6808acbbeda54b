from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, sdgen, sdformats as F
from hypothesis import strategies as st
from pydarnio import SDarnRead, SDarnWrite, DmapWrite, DmapRead

RULE = ("valid records of a random format (random groups, field order, layouts, extreme values) and records acceptable to the writer of another "
        "format, written, read by the same format's reader, written again and compared byte for byte with a plain DMap write; "
        "non-trivial: the writer accepted the records")
ASSUMPTIONS = ["each record has at least one scalar and one array and no empty array but slist"]


@st.composite
def case(draw):
    c = draw(sdgen.sdfile(max_records=4, muts=draw(st.integers(0, 4)) == 0))
    c["typed"] = draw(st.booleans())
    c["how"] = draw(st.lists(st.sampled_from(dgen.LAYOUTS + ["py", "list"]), min_size=1, max_size=4))
    c["stream"] = draw(st.booleans())
    return c


def run(c, ctx):
    pres = dgen.present_dmap if c["typed"] else dgen.present_dict
    fmt, recs = c["fmt"], c["recs"]
    ctx.label(fmt, "typed" if c["typed"] else "dict")
    src = [pres(r, c["how"]) for r in recs]
    p, q, plainp = ctx.path(), ctx.path(), ctx.path()
    try:
        getattr(SDarnWrite(src), "write_" + fmt)(p)
    except Exception as e:
        if sdgen.judge(fmt, recs) is None:
            fail(f"valid records refused by write_{fmt}: {type(e).__name__}: {str(e)[:300]}")
        ctx.trivial = True
        ctx.label("refused")
        return
    data = open(p, "rb").read()
    with must("plain DMap write"):
        DmapWrite(src).write_dmap(plainp)
    check(open(plainp, "rb").read() == data, f"write_{fmt} and write_dmap of the same records differ")
    with must(f"read_{fmt} of what write_{fmt} wrote"):
        rd = SDarnRead(data, True) if c["stream"] else SDarnRead(p)
        got = getattr(rd, "read_" + fmt)()
    typed = list(rd.get_dmap_records)
    check(len(got) == len(recs) == len(typed), lambda: f"{len(recs)} records, {len(got)} read back")
    for i, r in enumerate(recs):
        m = dgen.diff_plain(got[i], r, f"record {i}") or dgen.diff_typed(typed[i], r, f"record {i}")
        if m:
            fail(m)
    with must("plain read"):
        pr = DmapRead(data, True)
        pl = list(pr.read_records())
    for i, r in enumerate(recs):
        m = dgen.diff_plain(pl[i], r, f"record {i} by the plain reader")
        if m:
            fail(m)
    for what, again in (("plain", got), ("typed", typed)):
        with must(f"write_{fmt} of the {what} records read_{fmt} returned"):
            getattr(SDarnWrite(again), "write_" + fmt)(q)
        check(open(q, "rb").read() == data, f"writing the {what} records read gives another file")
    with must("second read"):
        again = getattr(SDarnRead(p), "read_" + fmt)()
    for i, r in enumerate(recs):
        m = dgen.diff_plain(again[i], r, f"record {i} on a second read")
        if m:
            fail(m)


SUBS = [Sub("roundtrip", case, run, 900, 16000)]
