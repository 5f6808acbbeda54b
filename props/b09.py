from hypothesis import strategies as st
from lib.harness import Sub, must, check, refuses, fail
from lib import bgen as G, bspec as S, bh5
from collections import OrderedDict
from pydarnio import BorealisConvert, BorealisRead, BorealisRestructure, BorealisWrite, borealis_exceptions as bx
import numpy as np
import os

RULE = ("random histories of 2-10 reads, views, writes, restructurings, conversions and attempts to overwrite the input on one generated file, "
        "input bytes and caller's data compared after every step; trivial with a single step")
ASSUMPTIONS = ["outputs go to paths that do not exist yet, except for the attempts to overwrite the input"]
STEPS = ["read", "reread", "records", "arrays", "names", "str", "write", "write_other", "wviews", "restructure", "same", "convert", "self", "self", "selfconvert"]
ALIAS = ["same", "dot", "dotdot", "relative", "symlink", "hardlink", "dirlink"]


@st.composite
def case(draw):
    conv = draw(st.booleans())
    p = draw(G.conv_params(max_rec=3) if conv else G.params(max_rec=3, fts=S.FT))
    start = "site" if p["ft"] == "rawrf" else draw(st.sampled_from(["site", "array"]))
    steps = draw(st.lists(st.tuples(st.sampled_from(STEPS), st.sampled_from(ALIAS), st.integers(0, 3)), min_size=2, max_size=10))
    return {"p": p, "start": start, "steps": steps, "by": draw(st.sampled_from(["radar", "pydarnio"])),
            "order": draw(st.sampled_from(["time", "reversed", "random"])), "dict": draw(st.booleans())}


def alias(ctx, path, how, i):
    """Another name of the same file."""
    d, b = os.path.split(path)
    d = d or "."
    if how == "same":
        return path
    if how == "dot":
        return os.path.join(d, ".", b)
    if how == "dotdot":
        sub = os.path.join(d, f"sub{i}")
        os.mkdir(sub)
        return os.path.join(sub, "..", b)
    if how == "relative":
        return os.path.relpath(path)
    new = os.path.join(d, f"alias{i}")
    if how == "symlink":
        os.symlink(path, new)
    elif how == "hardlink":
        os.link(path, new)
    else:
        os.symlink(d, new)
        return os.path.join(new, b)
    return new


def facts(data):
    """Everything a caller can observe of its data: order, identity, layout and content."""
    def one(v):
        if isinstance(v, dict):
            return [(k, id(x), one(x)) for k, x in v.items()]
        if isinstance(v, np.ndarray):
            return (v.dtype.str, v.shape, v.strides, v.flags.writeable, v.tobytes())
        return (type(v).__name__, repr(v))
    return one(data)


def run(c, ctx):
    p, start = c["p"], c["start"]
    v, ft = p["version"], p["ft"]
    both = ft in S.RESTRUCT
    other = "array" if start == "site" else "site"
    G.classes(p, ctx)
    ctx.label(start)
    ctx.trivial = len(c["steps"]) < 2
    recs = G.build(p)
    arrays = G.to_arrays(v, ft, recs) if both else None
    # the caller may keep the records in any order and in any kind of dictionary
    names = list(recs)
    if c["order"] == "reversed":
        names.reverse()
    elif c["order"] == "random":
        np.random.Generator(np.random.PCG64(p["seed"] + 2)).shuffle(names)
    mine = (dict if c["dict"] else OrderedDict)((k, recs[k]) for k in names)
    ctx.label("records in order" if names == list(recs) else "records out of order")
    data, odata = (mine, arrays) if start == "site" else (arrays, mine)
    for d in (data, odata):
        if d is not None:
            rng = np.random.Generator(np.random.PCG64(p["seed"] + 1))
            for r in (d.values() if d is mine else [d]):
                for k in r:
                    r[k] = G.weird_layout(r[k], rng)
    src = ctx.path("src")
    if c["by"] == "radar":
        (bh5.write_site if start == "site" else bh5.write_array)(src, data)
    f1, f2 = facts(data), facts(odata)
    if c["by"] == "pydarnio":
        with must("writing the file"):
            G.writer(src, data, ft, start)
    before = G.digest(src)
    ino = os.stat(src).st_ino
    views = {}
    reader = None

    def see(kind, got, what):
        if kind in views:
            d = G.diff_records(got, views[kind], what) if kind == "records" else G.diff(got, views[kind], what) if kind == "arrays" else \
                None if got == views[kind] else f"{what}: {got} != {views[kind]}"
            if d:
                fail("asking again gives another answer: " + d)
        else:
            views[kind] = {k: dict(x) if isinstance(x, dict) else x for k, x in G.snapshot(got).items()} if isinstance(got, dict) else got
    for i, (step, how, n) in enumerate(c["steps"]):
        structure = [None, start][n % 2]
        out = ctx.path(f"out{i}")
        if step in ("restructure", "same", "wviews", "write_other", "arrays", "self", "convert", "selfconvert") and not both:
            step = "records"
        if step in ("convert", "selfconvert") and not (p.get("conv")):
            step = "records"
        ctx.label(step)
        if step in ("read", "reread") or reader is None:
            with must("reading"):
                reader = BorealisRead(src, ft, structure)
        if step == "records":
            with must("asking for the records"):
                see("records", reader.records, "records")
        elif step == "arrays":
            with must("asking for the arrays"):
                see("arrays", reader.arrays, "arrays")
        elif step == "names":
            with must("asking for the record names"):
                see("names", list(reader.record_names), "record names")
        elif step == "str":
            with must("printing"):
                str(reader), repr(reader)
        elif step == "write":
            with must("writing the caller's data"):
                BorealisWrite(out, data, ft, structure)
        elif step == "write_other":
            with must("writing the caller's data of the other structure"):
                BorealisWrite(out, odata, ft, [None, other][n % 2])
        elif step == "wviews":
            d = [data, odata][n % 2]
            with must("writing and asking the writer for its views"):
                w = BorealisWrite(out, d, ft)
                see("records", w.records, "records of the writer") if w.borealis_file_structure == "array" else w.records
                w.arrays, w.record_names, w.records, w.arrays
        elif step == "restructure":
            with must("restructuring"):
                BorealisRestructure(src, out, ft, other)
        elif step == "same":
            with must("restructuring to the same structure"):
                BorealisRestructure(src, out, ft, start)
        elif step == "convert":
            with must("converting"):
                BorealisConvert(src, ft, out, borealis_slice_id=1, borealis_file_structure=structure)
        elif step == "self":
            a, b = (src, alias(ctx, src, how, i)) if n < 2 else (alias(ctx, src, how, i), src)
            ctx.label("onto itself: " + how)
            refuses(f"restructuring onto the input ({how})", bx.ConvertFileOverWriteError, lambda: BorealisRestructure(a, b, ft, [other, start][n % 2]))
        elif step == "selfconvert":
            a, b = (src, alias(ctx, src, how, i)) if n < 2 else (alias(ctx, src, how, i), src)
            refuses(f"conversion onto the input ({how})", bx.ConvertFileOverWriteError,
                    lambda: BorealisConvert(a, ft, b, borealis_slice_id=1, borealis_file_structure=structure))
        check(os.path.exists(src) and os.stat(src).st_ino == ino and G.digest(src) == before, lambda: f"step {i} ({step}) changed the input file")
        check(facts(data) == f1, lambda: f"step {i} ({step}) changed the caller's data")
        check(facts(odata) == f2, lambda: f"step {i} ({step}) changed the caller's other data")
        if step not in ("write", "read"):
            if "records" in views:
                see("records", reader.records, f"records after {step}")
            if "arrays" in views:
                see("arrays", reader.arrays, f"arrays after {step}")
    with must("reading the file at the end"):
        r = BorealisRead(src, ft)
    if start == "site":
        G.expect(G.diff_records(r.records, recs, "records at the end"))
    else:
        G.expect(G.diff(r.arrays, arrays, "arrays at the end"))


SUBS = [Sub("history", case, run, quick=400, thorough=12000)]
