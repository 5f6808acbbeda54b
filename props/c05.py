from lib.harness import Sub, must, check, fail
from lib import bgen as G, convcheck as C, refdmap as R
import itertools

RULE = ("random representable rawacf and bfiq data of every version stored site and array structured, by an independent writer and by pyDARNio, converted with the "
        "structure stated and detected; all files equal up to the quoted file name; trivial with one record")


def run(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    ctx.trivial = len(p["nseq"]) == 1
    recs = G.build(p)
    src = {}
    for s in ("site", "array"):
        src["radar " + s] = ctx.path("r" + s)
        C.store(c, src["radar " + s], recs, s)
        src["pydarnio " + s] = ctx.path("p" + s)
        with must("writing the Borealis file"):
            G.writer(src["pydarnio " + s], recs if s == "site" else G.to_arrays(p["version"], p["ft"], recs), p["ft"], s)
    first = None
    for (what, path), stated in itertools.product(src.items(), (True, False)):
        out = ctx.path("out")
        with must(f"converting the {what} file"):
            bc = C.go(dict(c, stated=stated), path, out + what + str(stated), what.split()[1])
        check(bc.borealis_file_structure == what.split()[1], lambda: f"{what} file detected as {bc.borealis_file_structure}")
        data = R.decode(open(out + what + str(stated), "rb").read(), strict_id=True)
        plain = [[(k, n, t, v.replace("Borealis file: " + path + " record", "Borealis file: X record") if n == "combf" else v) for k, n, t, v in r] for r in data]
        enc = R.encode(plain)
        if first is None:
            first = (what, plain, enc)
        elif enc != first[2]:
            check(len(plain) == len(first[1]), lambda: f"{what} file gives {len(plain)} records, {first[0]} file {len(first[1])}")
            for i, (a, b) in enumerate(zip(plain, first[1])):
                da, db = R.collapse(a), R.collapse(b)
                for k in set(da) | set(db):
                    check(k in da and k in db and repr(da[k]) == repr(db[k]), lambda: f"record {i} field {k}: {what} {da.get(k)}, {first[0]} {db.get(k)}")
            fail(f"files converted from the {what} and the {first[0]} file differ")


SUBS = [Sub("same", lambda: C.case(), run, quick=200, thorough=6000), Sub("long", lambda: C.case(long=True), run, quick=2, thorough=200)]
