from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R
import itertools, os
from pydarnio import DmapRead, DmapWrite

RULE = ("1-4 random files of 1-4 records each, including files sharing field names with other types and shapes; read alone, concatenated in "
        "random order, as file or stream; written alone and together; non-trivial: at least two records in total")


@st.composite
def case(draw):
    names = draw(st.lists(dgen.ascii_names, min_size=6, max_size=6, unique=True))
    nm = st.sampled_from(names) if draw(st.booleans()) else dgen._names
    files = draw(st.lists(dgen.records(4, names=nm, max_scalars=3, max_arrays=3), min_size=1, max_size=4))
    return {"files": files, "order": draw(st.lists(st.integers(0, len(files) - 1), min_size=1, max_size=6)),
            "typed": draw(st.booleans()), "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS), min_size=1, max_size=4))}


def read(data, ctx, file):
    with must("reading"):
        if file:
            p = ctx.path()
            open(p, "wb").write(data)
            r = DmapRead(p)
        else:
            r = DmapRead(data, True)
        return list(r.read_records()), list(r.get_dmap_records)


def run(c, ctx):
    pres = dgen.present_dmap if c["typed"] else dgen.present_dict
    enc = []
    for f in c["files"]:
        single = []
        for r in f:
            with must("writing one record"):
                single.append(bytes(DmapWrite([pres(r, c["how"])]).write_dmap_stream()))
        with must("writing a list of records"):
            w = DmapWrite([pres(r, c["how"]) for r in f])
            whole = bytes(w.write_dmap_stream())
            p = ctx.path()
            w.write_dmap(p)
        check(whole == b"".join(single), "bytes of a list of records are not the bytes of each record in order")
        check(open(p, "rb").read() == whole, "file and stream of the same records differ")
        enc.append(whole)
    order = c["order"]
    cat = b"".join(enc[i] for i in order)
    recs = [r for i in order for r in c["files"][i]]
    ctx.trivial = len(recs) < 2
    ctx.label(f"concatenated-records={min(len(recs), 12)}")
    for file in (False, True):
        plain, typed = read(cat, ctx, file)
        check(len(plain) == len(recs) == len(typed), lambda: f"{len(recs)} records concatenated, {len(plain)} read")
        for i, r in enumerate(recs):
            m = dgen.diff_typed(typed[i], r, f"record {i} of the concatenation") or dgen.diff_plain(plain[i], r, f"record {i} of the concatenation")
            if m:
                fail(m)
    with must("writing the concatenated records"):
        b = bytes(DmapWrite(typed).write_dmap_stream())
    check(b == cat, "writing the records of the concatenation does not give the concatenation")


SUBS = [Sub("concat", case, run, 1000, 16000)]
