from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, sdgen, sdformats as F
from hypothesis import strategies as st
from pydarnio import SDarnRead

RULE = ("files of 1-4 (sub many: 30-400) records of one of the six formats with random groups present, with 0-3 mutations (fields removed, groups made partial, "
        "extra or renamed fields, changed types), read with that format's reader and with another's, judged by an independent table of "
        "the formats; non-trivial: always (accepted files are compared field by field, refusals by class, fields and record number)")
ASSUMPTIONS = ["lib/sdformats.py is a snapshot of the field tables of the pinned formats"]


@st.composite
def case(draw):
    c = draw(sdgen.sdfile())
    c["reader"] = c["fmt"] if draw(st.integers(0, 9)) else draw(st.sampled_from(F.NAMES))
    c["file"] = draw(st.booleans())
    return c


def run(c, ctx):
    data = R.encode(c["recs"])
    v = sdgen.judge(c["reader"], c["recs"])
    ctx.label(c["reader"], "acceptable" if v is None else "bad-record-%d" % min(v[0], 3))
    with must("opening"):
        if c["file"]:
            p = ctx.path()
            open(p, "wb").write(data)
            rd = SDarnRead(p)
        else:
            rd = SDarnRead(data, True)
    try:
        got = getattr(rd, "read_" + c["reader"])()
    except Exception as e:
        if v is None:
            fail(f"valid {c['reader']} file refused: {type(e).__name__}: {str(e)[:300]}")
        ctx.label(sdgen.check_error(e, v, f"read_{c['reader']}"))
        return
    if v is not None:
        fail(f"read_{c['reader']} accepted a file whose record {v[0]} has missing {sorted(v[1])} extra {sorted(v[2])} wrongly typed {sorted(v[3])}")
    check(len(got) == len(c["recs"]), lambda: f"{len(c['recs'])} records, {len(got)} read")
    for i, r in enumerate(c["recs"]):
        m = dgen.diff_plain(got[i], r, f"record {i}") or dgen.diff_typed(list(rd.get_dmap_records)[i], r, f"record {i}") or dgen.diff_plain(rd.get_records[i], r, f"get_records {i}")
        if m:
            fail(m)


@st.composite
def every(draw):
    """Sweep: one field of the format missing, wrongly typed or extra (every field reached over a run)."""
    fmt = draw(st.sampled_from(F.NAMES))
    n = draw(st.integers(1, 3))
    rec = draw(sdgen.sdrecord(fmt, full=True))
    return {"fmt": fmt, "rec": rec, "n": n, "at": draw(st.integers(0, n - 1))}


def sweep(c, ctx):
    """Every field of the record in turn: removed, and given another type."""
    fmt, base = c["fmt"], c["rec"]
    ctx.label(fmt)
    ctx.sub_evals = 0
    good = R.enc_record(base)
    for i, f in enumerate(base):
        for what in ("removed", "retyped"):
            if what == "removed":
                rec = base[:i] + base[i + 1:]
            else:
                o = sdgen.OTHER[R.FMT[f[2]]][0]
                rec = list(base)
                v = f[3]
                if f[0] == "a":
                    v = f[3].astype(R.TYPES[R.CODE[o]][1]) if o != "s" else None
                else:
                    v = 1
                rec[i] = (f[0], f[1], R.CODE[o], v)
            if not any(x[0] == "a" for x in rec) or not any(x[0] == "s" for x in rec):
                continue
            recs = [base] * c["n"]
            recs[c["at"]] = rec
            v = sdgen.judge(fmt, recs)
            ctx.sub_evals += 1
            try:
                getattr(SDarnRead(b"".join(R.enc_record(rec) if r is rec else good for r in recs), True), "read_" + fmt)()
            except Exception as e:
                if v is None:
                    fail(f"{fmt} file with {f[1]} {what} refused: {type(e).__name__}: {str(e)[:200]}")
                sdgen.check_error(e, v, f"{f[1]} {what}")
            else:
                if v is not None:
                    fail(f"read_{fmt} accepted a record with {f[1]} {what}")


@st.composite
def mcase(draw):
    """Many records of which at most one, anywhere, is not valid."""
    fmt = draw(st.sampled_from(F.NAMES))
    good = draw(sdgen.sdrecord(fmt))
    bad = sdgen.mutate(fmt, good, draw(sdgen.mutation(fmt))) if draw(st.integers(0, 4)) else None
    n = draw(st.one_of(st.integers(30, 400), st.sampled_from([64, 100, 101, 128, 200, 255, 256, 257, 300])))
    return {"fmt": fmt, "good": good, "bad": bad, "n": n, "at": n - 1 - draw(st.one_of(st.integers(0, 3), st.integers(0, n - 1))),
            "file": draw(st.booleans())}


def many(c, ctx):
    one, odd = R.enc_record(c["good"]), R.enc_record(c["bad"]) if c["bad"] else None
    data = b"".join(odd if odd and i == c["at"] else one for i in range(c["n"]))
    v = F.verdict(c["fmt"], sdgen.types_of(c["bad"])) if c["bad"] else ()
    v = (c["at"],) + tuple(v) if any(v) else None
    ctx.label("bad record" if v else "all valid")
    with must("opening"):
        if c["file"]:
            p = ctx.path()
            open(p, "wb").write(data)
            rd = SDarnRead(p)
        else:
            rd = SDarnRead(data, True)
    what = "read_" + c["fmt"]
    try:
        got = getattr(rd, what)()
    except Exception as e:
        if v is None:
            fail(f"{what} refused {c['n']} valid records: {type(e).__name__}: {str(e)[:300]}")
        sdgen.check_error(e, v, what)
        return
    if v is not None:
        fail(f"{what} accepted {c['n']} records, verdict {v!r:.300}")
    check(len(got) == c["n"], lambda: f"{c['n']} records, {len(got)} read")
    for i in range(c["n"]):
        m = dgen.diff_plain(got[i], c["bad"] if c["bad"] and i == c["at"] else c["good"], f"record {i}")
        if m:
            fail(m)


SUBS = [Sub("judge", case, run, 1500, 25000), Sub("sweep", every, sweep, 60, 900, shards=8), Sub("many", mcase, many, 40, 1500)]
