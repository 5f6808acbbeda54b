from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, sdgen, sdformats as F
from hypothesis import strategies as st
import os
from pydarnio import SDarnWrite, DmapScalar

RULE = ("records of a random format with 0-3 mutations at any record, as dictionaries or typed records, written by the format's writer (or "
        "another's) over a fresh or existing path, followed by further writes with the same and other writers; judged by an independent "
        "table of the formats; non-trivial: always")
ASSUMPTIONS = ["lib/sdformats.py is a snapshot of the field tables of the pinned formats"]


@st.composite
def case(draw):
    c = draw(sdgen.sdfile(max_records=3))
    c["writers"] = [c["fmt"] if draw(st.integers(0, 3)) else draw(st.sampled_from(F.NAMES)) for _ in range(draw(st.integers(1, 4)))]
    c["typed"] = draw(st.booleans())
    c["how"] = draw(st.lists(st.sampled_from(dgen.LAYOUTS), min_size=1, max_size=3))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["fmt", "fmt", "fmt", "dmap", "stream", "fresh"]), st.integers(0, 3),
                                       st.sampled_from(["a", "b", ""])), min_size=1, max_size=5))
    c["old"] = draw(st.booleans())
    c["ctor_name"] = draw(st.booleans())
    c["badvalue"] = draw(st.integers(0, 14)) == 0
    return c


def run(c, ctx):
    pres = dgen.present_dmap if c["typed"] else dgen.present_dict
    src = [pres(r, c["how"]) for r in c["recs"]]
    full = R.encode(c["recs"])
    badvalue = False
    if c["badvalue"] and c["typed"]:
        r = src[-1]
        n = next((k for k, x in r.items() if isinstance(x, DmapScalar) and x.data_type_fmt in "chi"), None)
        if n is not None:
            r[n] = r[n]._replace(value=2**40)
            badvalue = True
            ctx.label("unencodable-value")
    files = {}
    if c["old"]:
        for n in "ab":
            open(os.path.join(ctx.dir, n), "wb").write(b"previous " + n.encode())
            files[n] = b"previous " + n.encode()

    def path(n):
        return os.path.join(ctx.dir, n)

    def mk():
        with must("making a writer"):
            return SDarnWrite(src, path("a") if c["ctor_name"] else "")
    w = mk()
    name = "a" if c["ctor_name"] else ""
    n = 0
    for op, k, target in [("fmt", 0, "a")] + c["ops"]:
        if op == "fresh":
            w, name = mk(), "a" if c["ctor_name"] else ""
            continue
        if op == "stream":
            if badvalue:
                continue
            with must("write_dmap_stream"):
                b = bytes(w.write_dmap_stream())
            check(b == full, "stream of a SuperDARN writer is not the plain DMap encoding of its records")
            continue
        if not target and not name:
            continue
        fmt = c["writers"][k % len(c["writers"])]
        v = sdgen.judge(fmt, c["recs"]) if op == "fmt" else None
        what = f"write_{fmt}" if op == "fmt" else "write_dmap"
        n += 1
        fn = getattr(w, what)
        try:
            fn(path(target)) if target else fn()
        except Exception as e:
            if v is None and not badvalue:
                fail(f"{what} refused valid records: {type(e).__name__}: {str(e)[:300]}")
            if v is not None and not badvalue:
                ctx.label(sdgen.check_error(e, v, what))
            refused = True
        else:
            if v is not None or badvalue:
                fail(f"{what} accepted records: bad value {badvalue}, verdict {v!r:.300}")
            refused = False
        if target:
            name = target
        if not refused:
            files[name] = full
        ctx.label("refused" if refused else "written", fmt)
        here = sorted(os.listdir(ctx.dir))
        check(here == sorted(files), lambda: f"after {what} ({'refused' if refused else 'accepted'}) the files are {here}, want {sorted(files)}")
        for f, b in files.items():
            got = open(path(f), "rb").read()
            check(got == b, lambda: f"after {what} ({'refused' if refused else 'accepted'}) file {f} has {len(got)} bytes, not the expected {len(b)}")
    ctx.sub_evals = n


def sweep_case():
    from props.s01 import every
    return every()


def sweep(c, ctx):
    fmt, base = c["fmt"], c["rec"]
    ctx.label(fmt)
    ctx.sub_evals = 0
    p = ctx.path("out")
    good = dgen.present_dmap(base)
    for i, f in enumerate(base):
        for what in ("removed", "retyped"):
            if what == "removed":
                rec = base[:i] + base[i + 1:]
            else:
                o = sdgen.OTHER[R.FMT[f[2]]][0]
                rec = list(base)
                rec[i] = (f[0], f[1], R.CODE[o], f[3].astype(R.TYPES[R.CODE[o]][1]) if f[0] == "a" else 1)
            recs = [base] * c["n"]
            recs[c["at"]] = rec
            v = sdgen.judge(fmt, recs)
            ctx.sub_evals += 1
            src = [dgen.present_dmap(rec) if r is rec else good for r in recs]
            try:
                getattr(SDarnWrite(src), "write_" + fmt)(p)
            except Exception as e:
                if v is None:
                    fail(f"write_{fmt} with {f[1]} {what} refused: {type(e).__name__}: {str(e)[:200]}")
                sdgen.check_error(e, v, f"{f[1]} {what}")
                check(not os.path.exists(p), "refused write left a file")
            else:
                if v is not None:
                    fail(f"write_{fmt} accepted a record with {f[1]} {what}")
                os.unlink(p)


@st.composite
def mcase(draw):
    """Many records of which at most one, anywhere, is not valid."""
    fmt = draw(st.sampled_from(F.NAMES))
    good = draw(sdgen.sdrecord(fmt))
    bad = sdgen.mutate(fmt, good, draw(sdgen.mutation(fmt))) if draw(st.integers(0, 4)) else None
    n = draw(st.one_of(st.integers(30, 400), st.sampled_from([64, 100, 101, 128, 200, 255, 256, 257, 300])))
    return {"fmt": fmt, "good": good, "bad": bad, "n": n, "at": n - 1 - draw(st.one_of(st.integers(0, 3), st.integers(0, n - 1))),
            "typed": draw(st.booleans()), "old": draw(st.booleans())}


def many(c, ctx):
    recs = [c["good"]] * c["n"]
    if c["bad"]:
        recs[c["at"]] = c["bad"]
    pres = dgen.present_dmap if c["typed"] else dgen.present_dict
    g = pres(c["good"])
    src = [g if r is c["good"] else pres(r) for r in recs]
    v = F.verdict(c["fmt"], sdgen.types_of(c["bad"])) if c["bad"] else ()
    v = (c["at"],) + tuple(v) if any(v) else None
    p = ctx.path("out")
    if c["old"]:
        open(p, "wb").write(b"previous")
    what = "write_" + c["fmt"]
    ctx.label("refused" if v else "written")
    try:
        getattr(SDarnWrite(src), what)(p)
    except Exception as e:
        if v is None:
            fail(f"{what} refused {c['n']} valid records: {type(e).__name__}: {str(e)[:300]}")
        sdgen.check_error(e, v, what)
        check(os.path.exists(p) == c["old"] and (not c["old"] or open(p, "rb").read() == b"previous"), "refused write changed the file")
    else:
        if v is not None:
            fail(f"{what} accepted {c['n']} records, verdict {v!r:.300}")
        one = R.encode([c["good"]])
        want = one * c["n"] if not c["bad"] else one * c["at"] + R.encode([c["bad"]]) + one * (c["n"] - c["at"] - 1)
        check(open(p, "rb").read() == want, "file of many records is not their encoding")


SUBS = [Sub("judge", case, run, 1500, 25000), Sub("sweep", sweep_case, sweep, 60, 900, shards=8), Sub("many", mcase, many, 40, 1500)]
