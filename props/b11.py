from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail, refuses
from lib import bgen as G, bspec as S, bh5
from pydarnio import BorealisConvert, BorealisRestructure, borealis_exceptions as bx
from collections import OrderedDict
import contextlib
import h5py
import numpy as np
import os

RULE = ("generated data written, restructured or converted onto nothing or onto an existing file of eight kinds, undisturbed or with a failure: bad data in the last "
        "record, an unusable compression, a storage error at the k-th HDF5 operation; trivial when nothing could fail")
ASSUMPTIONS = ["storage errors (OSError, RuntimeError, MemoryError) and interrupts are injected into h5py's creation of groups, datasets and attributes",
               "existing site records are of the same version and file type as the data",
               "restructuring onto an existing file of the output structure may be refused, replace it or add to it"]
OLD = ["none", "none", "none", "site", "overlap", "array", "text", "zero", "h5", "sitemeta"]
OPS = ["write-site", "write-site", "write-array", "site-array", "array-site", "array-site", "site-site", "array-array", "convert"]
FAIL = ["", "", "compression", "fault", "fault", "late", "late"]


@st.composite
def case(draw):
    op = draw(st.sampled_from(OPS))
    p = draw(G.conv_params(max_rec=4) if op == "convert" else G.params(max_rec=4, fts=S.FT if op == "write-site" else S.RESTRUCT))
    return {"p": p, "op": op, "old": draw(st.sampled_from(OLD)), "fail": draw(st.sampled_from(FAIL)), "at": draw(st.integers(0, 120)), "how": draw(st.integers(0, 7)),
            "stated": draw(st.sampled_from(["stated", "not", "direct"])), "from": draw(st.sampled_from(["site", "array"])),
            "comp": draw(st.sampled_from(["bogus", "GZIP9", "szip ", -5, 77, (1, 2)]))}


def tree(path):
    """Everything an HDF5 file holds; the bytes of any other file."""
    if not os.path.exists(path):
        return None
    try:
        f = h5py.File(path, "r")
    except OSError:
        return open(path, "rb").read() or {}  # an empty file holds as little as an empty HDF5 file

    def walk(g):
        out = {"@" + k: (type(v).__name__, repr(v)) for k, v in g.attrs.items()}
        if isinstance(g, h5py.Dataset):
            out["="] = (g.dtype.str, g.shape, g[()].tobytes())
        else:
            out.update({k: walk(v) for k, v in g.items()})
        return out
    with f:
        return walk(f)


class Fault(OSError):
    pass


KINDS = [lambda: Fault(28, "No space left on device"), lambda: Fault(28, "No space left on device"), lambda: RuntimeError("Unable to create dataset (unable to write)"),
         lambda: MemoryError(), KeyboardInterrupt]


@contextlib.contextmanager
def faults(at, kind=0):
    """The at-th creation of a group, dataset or attribute fails as on a full disk, for want of memory or by an interrupt."""
    count = [0]
    saved = []

    def wrap(cls, name):
        orig = getattr(cls, name)

        def g(self, *a, **kw):
            count[0] += 1
            if count[0] - 1 == at:
                raise KINDS[kind % len(KINDS)]()
            return orig(self, *a, **kw)
        saved.append((cls, name, orig))
        setattr(cls, name, g)
    for cls, name in ((h5py.Group, "create_group"), (h5py.Group, "create_dataset"), (h5py.AttributeManager, "__setitem__")):
        wrap(cls, name)
    try:
        yield count
    finally:
        for cls, name, orig in saved:
            setattr(cls, name, orig)


def spoil(data, structure, how, v, ft):
    """Make the last record bad in a way that need not show before it is reached."""
    if structure == "site":
        r = data[list(data)[-1]]
        names = sorted(r)
        if how == 0:
            del r[names[len(names) // 2]]
        elif how == 1:
            r["zzz"] = np.zeros(2)
        elif how == 2:
            r["num_sequences"] = np.float64(1)
        elif how == 3:
            r["sqn_timestamps"] = r["sqn_timestamps"].astype(np.float32)
        elif how == 4 and S.flattened(v, ft):
            r[S.BULK[ft][0]] = r[S.BULK[ft][0]][:-1]
        elif how == 5:
            r["sqn_timestamps"] = r["sqn_timestamps"].reshape(1, 1, -1)
        elif how == 6:
            r[S.BULK[ft][0]] = r[S.BULK[ft][0]].astype(np.complex128)
        else:
            r["borealis_git_hash"] = 5
    else:
        n = len(data["sqn_timestamps"])
        un = sorted(S.unshared(v, ft))
        if how == 0:
            k = un[n % len(un)]
            data[k] = data[k][:-1]
        elif how == 1:
            data["sqn_timestamps"][-1] = np.nan
        elif how == 2:
            data["num_sequences"][-1] = -9
        elif how == 3:
            data["num_sequences"] = data["num_sequences"][:-1]
        elif how == 4:
            data["sqn_timestamps"][-1] = 1e30
        elif how == 5:
            k = "num_beams" if "num_beams" in data else "num_sequences"
            data[k] = data[k][:-1]
        elif how == 6:
            del data[un[-1]]
        elif n > 1:
            data["sqn_timestamps"][-1] = data["sqn_timestamps"][0]


def run(c, ctx):
    p, op, old = c["p"], c["op"], c["old"]
    v, ft = p["version"], p["ft"]
    ctx.label(op, "onto " + old, "failure " + (c["fail"] or "none"))
    both = ft in S.RESTRUCT
    recs = G.build(p)
    src_kind = {"write-site": "site", "write-array": "array", "site-array": "site", "array-site": "array", "site-site": "site", "array-array": "array"}.get(op, c["from"])
    out_kind = {"write-site": "site", "write-array": "array", "site-array": "array", "array-site": "site", "site-site": "site", "array-array": "array"}.get(op)
    data = recs if src_kind == "site" else G.to_arrays(v, ft, recs)
    want = G.snapshot(recs if out_kind == "site" else G.to_arrays(v, ft, recs)) if out_kind else None
    data = G.snapshot(data)
    late = c["fail"] == "late"
    if late:
        if op == "convert":
            last = recs[list(recs)[-1]]
            last["blanked_samples"] = np.append(last["blanked_samples"], last["blanked_samples"].max() + 7).astype(np.uint32) if S.level(v) > 4 else last["blanked_samples"]
            if S.level(v) <= 4:
                late = False
            data = recs if src_kind == "site" else G.to_arrays(v, ft, recs)
        else:
            spoil(data, src_kind, c["how"], v, ft)
    # what is at the output path
    out = ctx.path("out")
    other = G.build(dict(p, seed=p["seed"] ^ 0x77))
    if set(other) & set(recs):
        ctx.trivial = True
        return
    if old in ("site", "overlap", "sitemeta"):
        if old == "overlap":
            k = list(recs)[c["at"] % len(recs)]
            other[k] = other[list(other)[0]]
            other = OrderedDict(sorted(other.items()))
        bh5.write_site(out, other, extra=old == "sitemeta")
    elif old == "array":
        if not both:
            ctx.trivial = True
            return
        bh5.write_array(out, G.to_arrays(v, ft, other))
    elif old == "text":
        open(out, "w").write("not HDF5 at all\n" * 40)
    elif old == "zero":
        open(out, "w").close()
    elif old == "h5":
        h5py.File(out, "w").close()
    src = ctx.path("src")
    if not op.startswith("write"):
        (bh5.write_site if src_kind == "site" else bh5.write_array)(src, data)
        sdig = G.digest(src)
    before = tree(out)
    listing = sorted(os.listdir(ctx.dir))
    comp = {"hdf5_compression": c["comp"]} if c["fail"] == "compression" else {}

    def go():
        if op.startswith("write"):
            kw = (c["comp"],) if comp else ()
            if c["stated"] == "direct":
                return G.writer(out, data, ft, out_kind, *kw, direct=True)
            return G.writer(out, data, ft, out_kind if c["stated"] == "stated" else None, *kw)
        if op == "convert":
            return BorealisConvert(src, ft, out, borealis_slice_id=1, borealis_file_structure=None if c["stated"] == "not" else src_kind)
        return BorealisRestructure(src, out, ft, out_kind, **comp)
    err = None
    with (faults(c["at"] * (1 + 2 * p["seed"] % 3) // 2, p["seed"] // 3) if c["fail"] == "fault" else contextlib.nullcontext()) as count:
        try:
            go()
        except (Exception, KeyboardInterrupt) as e:
            err = e
    copies = op in ("site-site", "array-array")
    after = tree(out)
    if err is not None:
        ctx.label("failed")
        check(after == before, lambda: f"{op} onto {old} failed ({type(err).__name__}: {str(err)[:120]}) and " + ("left a file" if before is None else "changed the existing file" if after is not None else "removed the existing file"))
    else:
        ctx.label("succeeded")
        if out_kind == "site" and not late and not copies:
            with must("reading the result"):
                got = bh5.read_site(out)
            exp = dict(want)
            if old in ("site", "sitemeta") and (op == "write-site" or set(got) != set(exp)):
                exp.update(G.snapshot(other))
            G.expect(G.diff_records(got, OrderedDict(sorted(exp.items())), f"{op} onto {old}"))
            with must("reading the result with pyDARNio"):
                G.reader(out, ft)
        elif out_kind == "array" and not late and not copies:
            with must("reading the result"):
                got = bh5.read_array(out)
            G.expect(G.diff(got, want, f"{op} onto {old}"))
            with must("reading the result with pyDARNio"):
                G.reader(out, ft)
        elif copies:
            check(after == tree(src), f"{op} onto {old}: the copy is not equal")
        if op in ("write-site", "write-array") or (out_kind and not copies):
            bad = {"site": ("overlap", "array", "text"), "array": ("site", "overlap", "sitemeta", "text")}[out_kind] if op.startswith("write") else \
                {"site": ("array", "text"), "array": ("site", "overlap", "sitemeta", "text")}[out_kind]
            check(old not in bad, lambda: f"{op} onto an existing file ({old}) was not refused")
            if op == "write-array":
                check(old != "array", "write-array onto an existing array file was not refused")
    if err is not None and not c["fail"] and (old == "none" or copies or op == "convert" or (op == "write-site" and old in ("site", "sitemeta"))):
        fail(f"{op} onto {old} with nothing wrong failed: {type(err).__name__}: {str(err)[:300]}")
    if c["fail"] == "late" and late and op.startswith("write") and err is None and src_kind == "site" and c["how"] not in (4, 5):
        fail(f"{op} of a bad last record was not refused")
    if c["fail"] == "late" and late and op == "convert" and err is None:
        fail("conversion of a bad last record was not refused")
    ctx.trivial = err is None and not (old in ("site", "sitemeta") and op == "write-site")
    if not op.startswith("write"):
        check(G.digest(src) == sdig, "the input changed")
    now = sorted(os.listdir(ctx.dir))
    if os.path.basename(out) in now and os.path.basename(out) not in listing:
        now.remove(os.path.basename(out))
    check(now == listing, lambda: f"files left behind: {set(now) ^ set(listing)}")


SUBS = [Sub("atomic", case, run, quick=900, thorough=30000)]
