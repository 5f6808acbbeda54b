from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5, convcheck as C
from pydarnio.borealis.borealis_array import BorealisArrayRead
from pydarnio.borealis.borealis_site import BorealisSiteRead

RULE = ("generated data of every version and restructurable type stored in both structures; every view of every reader, writer and converter is compared with the "
        "reference model; trivial with one record")


@st.composite
def case(draw, **kw):
    return {"p": draw(G.params(**kw)), "by": draw(st.sampled_from(["radar", "pydarnio"])), "stated": draw(st.booleans()), "direct": draw(st.booleans()), "shuffle": draw(st.sampled_from([0, 0, 1, 2, 3])),
            "order": draw(st.permutations(["records", "arrays", "names", "version"]))}


def run(c, ctx):
    p = c["p"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    ctx.trivial = len(p["nseq"]) == 1
    ctx.label(c["by"], "direct" if c["direct"] else "facade")
    recs = G.build(p)
    arrays = G.to_arrays(v, ft, recs)
    names = list(recs)
    site, arr = ctx.path("site"), ctx.path("array")
    sources = {}
    with must("writing both structures"):
        sources["site writer"] = G.writer(site, G.given(recs, c["shuffle"]), ft, "site" if c["stated"] or c["direct"] else None, direct=c["direct"])
        sources["array writer"] = G.writer(arr, arrays, ft, "array" if c["stated"] or c["direct"] else None, direct=c["direct"])
    if c["by"] == "radar":
        site, arr = ctx.path("rsite"), ctx.path("rarray")
        bh5.write_site(site, recs)
        bh5.write_array(arr, arrays)
    with must("reading both structures"):
        sources["site reader"] = BorealisSiteRead(site, ft) if c["direct"] else G.reader(site, ft, "site" if c["stated"] else None)
        sources["array reader"] = BorealisArrayRead(arr, ft) if c["direct"] else G.reader(arr, ft, "array" if c["stated"] else None)
    fmt = None
    for what, x in sources.items():
        for view in c["order"]:
            with must(f"{view} of the {what}"):
                got = {"records": lambda: x.records, "arrays": lambda: x.arrays, "names": lambda: list(x.record_names), "version": lambda: x.software_version}[view]()
            if view == "records":
                G.expect(G.diff_records(got, recs, f"records of the {what}", what != "site writer"))
            elif view == "arrays":
                G.expect(G.diff(got, arrays, f"arrays of the {what}"))
            elif view == "names":
                check(got == names, lambda: f"record names of the {what}: {got} != {names}")
            else:
                check(got == ".".join(v.split("-")[0].split(".")[:2]), lambda: f"version of the {what}: {got}, data of {v}")
        fmt = fmt or x.format
        check(x.format is fmt, lambda: f"format of the {what} is {x.format}, of another source {fmt}")


@st.composite
def order_case(draw):
    return {"p": draw(G.params(max_rec=6)), "order": draw(st.integers(1, 2**16)), "by": draw(st.sampled_from(["writer", "reader", "radar"])), "names_first": draw(st.booleans())}


def order(c, ctx):
    """Arrays whose rows are not in time order: every record keeps its own data and the names are in time order."""
    p = c["p"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    recs = G.build(p)
    given = G.given(recs, c["order"])
    names = list(recs)
    ctx.trivial = list(given) == names
    arrays = G.to_arrays(v, ft, given)
    path = ctx.path("array")
    if c["by"] == "radar":
        bh5.write_array(path, arrays)
    else:
        with must("writing arrays"):
            x = G.writer(path, arrays, ft, "array")
    if c["by"] != "writer":
        with must("reading arrays"):
            x = G.reader(path, ft)
    for view in ("names", "records") if c["names_first"] else ("records", "names"):
        if view == "names":
            with must("record names"):
                got = list(x.record_names)
            check(got == names, lambda: f"record names {got} != {names}")
        else:
            with must("records"):
                got = x.records
            G.expect(G.diff_records(got, recs, "records", False))


@st.composite
def conv_case(draw):
    return {"c": draw(C.case()), "order": draw(st.permutations(["records", "arrays", "names", "version", "records", "borealis_records"]))}


def converter(c, ctx):
    """The views of a converter, which is a reader, after the conversion."""
    p = c["c"]["p"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    recs = G.build(p)
    want = G.snapshot(recs)
    arrays = G.to_arrays(v, ft, want)
    src = ctx.path("in")
    s = C.store(c["c"], src, recs)
    with must("converting representable data"):
        x = C.go(c["c"], src, ctx.path("out"), s)
    what = f"converter of the {s} file"
    for view in c["order"]:
        with must(f"{view} of the {what}"):
            got = {"records": lambda: x.records, "borealis_records": lambda: x.borealis_records, "arrays": lambda: x.arrays, "names": lambda: list(x.record_names), "version": lambda: x.software_version}[view]()
        if view in ("records", "borealis_records"):
            G.expect(G.diff_records(got, want, f"{view} of the {what}"))
        elif view == "arrays":
            G.expect(G.diff(got, arrays, f"arrays of the {what}"))
        elif view == "names":
            check(got == list(want), lambda: f"record names of the {what}: {got} != {list(want)}")
        else:
            check(got == ".".join(v.split("-")[0].split(".")[:2]), lambda: f"version of the {what}: {got}, data of {v}")


SUBS = [Sub("converter", conv_case, converter, quick=100, thorough=3000), Sub("order", order_case, order, quick=100, thorough=3000), Sub("views", case, run, quick=400, thorough=12000), Sub("long", lambda: case(long=True), run, quick=3, thorough=200)]
