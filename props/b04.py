from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import bgen as G, bspec as S, bh5
import numpy as np

RULE = ("generated ragged records viewed as arrays (by reader, writer, or file restructuring) and compared field by field with the "
        "reference layout; the case is trivial with one record")


@st.composite
def case(draw, **kw):
    return {"p": draw(G.params(max_rec=5, **kw)), "via": draw(st.sampled_from(["reader", "writer", "file"])), "shuffle": draw(st.sampled_from([0, 0, 1, 2, 3])),
            "layout": draw(st.sampled_from([0, 0, 1, 2, 3, 4]))}


def run(c, ctx):
    from pydarnio import BorealisRestructure
    p = c["p"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    ctx.label("via=" + c["via"])
    ctx.trivial = len(p["nseq"]) == 1
    recs = G.build(p)
    want = G.to_arrays(v, ft, recs)
    src = ctx.path("s.hdf5")
    if c["via"] == "writer":
        with must("arrays of the writer"):
            got = G.writer(src, G.relaid(G.given(recs, c["shuffle"]), c["layout"]), ft, "site").arrays
    else:
        bh5.write_site(src, recs)
        if c["via"] == "reader":
            with must("arrays of a site file"):
                got = G.reader(src, ft).arrays
        else:
            out = ctx.path("a.hdf5")
            with must("restructuring to arrays"):
                BorealisRestructure(src, out, ft, "array")
            got = bh5.read_array(out)
    n = len(recs)
    # the layout, stated directly (independent of the reference arrays)
    per = S.unshared(v, ft)
    check(set(got) == set(S.array_fields(v, ft)), lambda: f"fields {sorted(set(got) ^ set(S.array_fields(v, ft)))} missing or extra")
    for k in per:
        a = got[k]
        check(isinstance(a, np.ndarray) and a.shape[0] == n, lambda: f"{k}: first dimension of {getattr(a, 'shape', a)!r} is not {n} records")
    for i, r in enumerate(recs.values()):
        for name, field in (("num_sequences", "sqn_timestamps"), ("num_beams", "beam_nums"), ("num_blanked_samples", "blanked_samples")):
            if name in got and field in r:
                check(int(got[name][i]) == len(r[field]), lambda: f"{name}[{i}] is {got[name][i]}, the record has {len(r[field])}")
        for k in per:
            x = np.asarray(r[k])
            if k in S.BULK[ft]:
                x = x.reshape(tuple(r[S.dims_field(v, ft)]))
            row = got[k][i]
            if k == "slice_interfacing":
                check(str(row) == r[k], lambda: f"{k}[{i}] is {row!r}, the record has {r[k]!r}")
                continue
            if x.ndim == 0:
                check(G.same(np.asarray(row), x), lambda: f"{k}[{i}] is {row!r}, the record has {x!r}")
                continue
            mask = np.ones(row.shape, bool)
            sl = tuple(slice(0, s) for s in x.shape)
            check(row.ndim == x.ndim and all(a >= b for a, b in zip(row.shape, x.shape)), lambda: f"{k}[{i}]: row {row.shape} cannot hold {x.shape}")
            mask[sl] = False
            check(G.same(np.ascontiguousarray(row[sl]), x), lambda: f"{k}[{i}]: data {G.cmpx.describe(row[sl])} is not the record's {G.cmpx.describe(x)}")
            pad = row[mask]
            if pad.size:
                ctx.label("padding")
                ok = np.isnan(pad).all() if row.dtype.kind in "fc" else (pad == (-1 if row.dtype.kind == "i" else 0)).all()
                check(ok, lambda: f"{k}[{i}]: padding {pad[:4]!r}")
    G.expect(G.diff(got, want, "arrays"))


SUBS = [Sub("layout", case, run, quick=700, thorough=20000), Sub("long", lambda: case(long=True), run, quick=3, thorough=200)]
