from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5, cmpx
import numpy as np

RULE = ("array-structured data of generated records (every version and restructurable type; optionally with larger padding, wider text and "
        "odd memory layouts) written and read; per case the file is also read and written by an independent h5py implementation")
ASSUMPTIONS = ["output path does not exist before the write (h5py appends to existing files)", "text has no NUL characters"]


@st.composite
def case(draw, **kw):
    return {"p": draw(G.params(**kw)), "comp": draw(G.COMP), "direct": draw(st.booleans()), "ws": draw(st.sampled_from(["array", None])),
            "rs": draw(st.sampled_from(["array", None])), "pad": draw(st.integers(0, 2)), "layout": draw(st.booleans()),
            "wide": draw(st.sampled_from([None, None, 256, 300])), "extra": draw(st.booleans()), "order": draw(st.integers(0, 3))}


def data(c):
    p = c["p"]
    v, ft = p["version"], p["ft"]
    arrays = G.to_arrays(v, ft, G.build(p))
    rng = np.random.Generator(np.random.PCG64(p["seed"] + 2))
    if c["pad"]:  # more padding than the records need is still a valid file
        for k in S.unshared(v, ft):
            a = arrays[k]
            if a.ndim > 1 and not (k == "pulse_phase_offset" and p["ppo"] == "empty"):
                big = np.full((a.shape[0],) + tuple(s + c["pad"] for s in a.shape[1:]), G.PAD.get(a.dtype.kind, 0), a.dtype)
                big[tuple(slice(0, s) for s in a.shape)] = a
                arrays[k] = big
    if c["wide"] and "slice_interfacing" in arrays:
        arrays["slice_interfacing"] = arrays["slice_interfacing"].astype(f"U{c['wide']}")
    if c["layout"]:
        arrays = {k: G.weird_layout(x, rng) for k, x in arrays.items()}
    names = list(arrays)
    if c["order"] == 0:
        rng.shuffle(names)
    return {k: arrays[k] for k in names}


def exact(got, want, what):
    """Types and shapes included; text arrays must also keep their width (big-endian text may be normalised)."""
    G.expect(G.diff(got, want, what))
    for k, x in want.items():
        if isinstance(x, np.ndarray) and x.dtype.kind in "US":
            check(got[k].dtype.itemsize == x.dtype.itemsize, lambda: f"{what}[{k!r}] dtype {got[k].dtype}, want {x.dtype}")


def rw(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    arrays = data(c)
    want = G.snapshot(arrays)
    path = ctx.path("a.hdf5")
    with must("writing valid array data"):
        w = G.writer(path, arrays, p["ft"], "array" if c["direct"] else c["ws"], c["comp"], c["direct"])
    exact(bh5.read_array(path), want, "arrays stored in the file")
    bh5.check_compression(path, c["comp"], "zlib")
    asked = "zlib" if c["comp"] == "default" else c["comp"]
    check(w.compression == asked, lambda: f"the writer reports compression {w.compression!r}, asked for {asked!r}")
    if not c["direct"]:
        check(w.borealis_file_structure == "array", f"writer says structure {w.borealis_file_structure}")
    with must("reading the file written"):
        r = G.reader(path, p["ft"], "array" if c["direct"] else c["rs"], c["direct"])
    exact(r.arrays, want, "arrays read")


def foreign(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    arrays = data(c)
    want = G.snapshot(arrays)
    path = ctx.path("a.hdf5")
    bh5.write_array(path, arrays, c["comp"] if c["comp"] not in ("default", "zlib") else None, extra=c["extra"])
    with must("reading a valid array file"):
        r = G.reader(path, p["ft"], "array" if c["direct"] else c["rs"], c["direct"])
    exact(r.arrays, want, "arrays read")
    out = ctx.path("b.hdf5")
    with must("writing the arrays read"):
        G.writer(out, r.arrays, p["ft"], "array" if c["direct"] else c["ws"], c["comp"], c["direct"])
    with must("reading them again"):
        r2 = G.reader(out, p["ft"], c["rs"])
    exact(r2.arrays, want, "arrays after read, write and read")


SUBS = [Sub("rw", case, rw, quick=700, thorough=20000), Sub("foreign", case, foreign, quick=300, thorough=8000), Sub("long", lambda: case(long=True), rw, quick=20, thorough=600)]
