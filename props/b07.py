from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail, refuses
from lib import bgen as G, bspec as S, bh5
from pydarnio import borealis_exceptions as bx
from pydarnio.borealis.borealis_utilities import BorealisUtilities
import numpy as np
import os

RULE = ("valid generated arrays (accepted) or arrays with 1-4 corruptions (removed, extra, wrongly typed fields, arrays for attributes, attributes for arrays, "
        "another number of records), written by pyDARNio, read from a file written independently, or given to the array check; trivial when nothing is corrupted")
ASSUMPTIONS = ["several corruptions at once: any error that applies, with exactly its fields",
               "text arrays for byte-string fields are unspecified; int64 pulse_phase_offset of shape (2,) is the repaired legacy form"]
SCALARS = [np.float32(1.5), np.float64(2.5), np.int16(3), np.int64(4), np.uint8(5), np.uint32(6), np.bool_(True), "text"]
PYTHON = [7, 8.5, None, True, [1, 2], b"raw", np.str_("x"), {}]
DTYPES = [np.float32, np.float64, np.int16, np.int64, np.uint8, np.uint32, np.complex64, np.complex128, np.str_, np.bytes_, np.bool_]
EXTRA = ["junk", "Freq", "freq ", "data_dimensions", "correlation_dimensions", "slice_id_2", "rx_freq", "1"]
BOREALIS = tuple(v for v in vars(bx).values() if isinstance(v, type) and issubclass(v, Exception))


@st.composite
def case(draw):
    p = draw(G.params(max_rec=4))
    fields = S.array_fields(p["version"], p["ft"])
    names = sorted(fields)
    un = sorted(S.unshared(p["version"], p["ft"]))
    ops = []
    for kind in draw(st.lists(st.sampled_from(["missing", "extra", "type", "type", "swap", "records", "records"]), min_size=0 if draw(st.integers(0, 5)) == 0 else 1,
                              max_size=1 if draw(st.integers(0, 2)) else 4)):
        if kind == "missing":
            ops.append((kind, draw(st.sampled_from([1, 1, 2, 3])), draw(st.permutations(names))[:3]))
        elif kind == "extra":
            ops.append((kind, draw(st.integers(1, 3)), draw(st.permutations(EXTRA))[:3]))
        elif kind == "records":
            ops.append((kind, draw(st.sampled_from(["more", "less", "scalar", "more"])), draw(st.permutations(un))[:draw(st.sampled_from([1, 1, 2]))]))
        else:
            for k in draw(st.permutations(names))[:draw(st.sampled_from([1, 1, 2, 3]))]:
                ops.append((kind, draw(st.integers(0, 60)), k))
            if kind == "type" and "pulse_phase_offset" in names and draw(st.integers(0, 7)) == 0:
                ops.append((kind, DTYPES.index(np.int64), "pulse_phase_offset"))
    return {"p": p, "ops": ops, "via": draw(st.sampled_from(["write", "write", "direct", "read", "check"])), "structure": draw(st.sampled_from(["array", "array", "array", None])),
            "empty": draw(st.booleans())}


def corrupt(c):
    p, storable = c["p"], c["via"] == "read"
    v, ft = p["version"], p["ft"]
    a = dict(G.to_arrays(v, ft, G.build(p)))
    fields = S.array_fields(v, ft)
    un = S.unshared(v, ft)
    touched = set()
    for op in c["ops"]:
        if op[0] == "missing":
            for k in op[2][:op[1]]:
                a.pop(k, None)
                touched.add(k)
        elif op[0] == "extra":
            for j, k in enumerate(op[2][:op[1]]):
                if k not in fields:
                    a[k] = [np.float32(3), np.zeros(3, np.uint32), "x"][j % 3]
        elif op[0] == "records":
            for k in op[2]:
                if k in touched or k not in a:
                    continue
                touched.add(k)
                x = a[k]
                if op[1] == "more":
                    a[k] = np.concatenate([x, x[:1]])
                elif op[1] == "less":
                    a[k] = x[1:] if len(x) == 1 or len(x) % 2 else x[:-1]
                elif not storable:
                    a[k] = np.array(0, x.dtype)
        else:
            kind, sel, k = op
            if k in touched or k not in a:
                continue
            d, t = fields[k]
            isarr = (d == "d") != (kind == "swap")
            if isarr:
                dt = DTYPES[sel % len(DTYPES)]
                if d == "d" and (np.dtype(dt).type is np.dtype(t).type or (t is np.bytes_ and dt is np.str_)):
                    continue
                if k == "pulse_phase_offset" and dt is np.int64 and np.shape(a[k]) == (2,):
                    continue
                shape = a[k].shape if isinstance(a[k], np.ndarray) else (1 + sel % 3,)
                n = int(np.prod(shape))
                if dt in (np.str_, np.bytes_):
                    if n == 0 and storable:
                        continue  # a text array without elements has no stored form
                    a[k] = np.array([f"t{i}" for i in range(n)], dt).reshape(shape) if n else np.zeros(shape, "U1" if dt is np.str_ else "S1")
                else:
                    a[k] = np.zeros(shape, dt)
            else:
                pool = SCALARS + ([] if storable else PYTHON)
                val = pool[sel % len(pool)]
                if type(val) is t and d == "a":
                    continue
                a[k] = val
            touched.add(k)
    return a, fields, un


def truth(a, fields, un):
    t = {"missing": set(fields) - set(a), "extra": set(a) - set(fields), "arrays": set(), "attrs": set(), "types": set(), "records": False}
    dims = set()
    for k, x in a.items():
        if k not in fields:
            continue
        kind, ty = fields[k]
        isarr = isinstance(x, np.ndarray)
        if kind == "a" and isarr:
            t["arrays"].add(k)
        elif kind == "d" and not isarr:
            t["attrs"].add(k)
        elif kind == "a" and type(x) is not ty or kind == "d" and x.dtype.type is not np.dtype(ty).type:
            t["types"].add(k)
        if k in un and isarr:
            dims.add(x.shape[0] if x.ndim else None)
    t["records"] = len(dims) > 1 or None in dims
    return t


def run(c, ctx):
    p = c["p"]
    ft = p["ft"]
    a, fields, un = corrupt(c)
    t = truth(a, fields, un)
    bad = sorted(k for k, x in t.items() if x)
    G.classes(p, ctx)
    ctx.trivial = not bad
    ctx.label(c["via"], "+".join(bad) if len(bad) < 3 else "3+ kinds")
    path = ctx.path("a.hdf5")
    via = c["via"]
    structure = c["structure"]
    if via == "check":
        at = {k: ty for k, (kind, ty) in fields.items() if kind == "a"}
        dt = {k: ty for k, (kind, ty) in fields.items() if kind == "d"}
        act = lambda: BorealisUtilities.check_arrays("origin", a, at, dt, sorted(un))  # noqa: E731
        structure = "array"
    elif via in ("write", "direct"):
        structure = "array" if via == "direct" else structure
        act = lambda: G.writer(path, a, ft, structure, direct=via == "direct")  # noqa: E731
    else:
        bh5.write_array(path, a)
        act = lambda: G.reader(path, ft, structure)  # noqa: E731
    if not bad:
        with must(f"{via} of valid arrays"):
            act()
        if via in ("write", "direct"):
            check(os.path.exists(path), "an accepted write left no file")
        return
    err = refuses("invalid arrays", BOREALIS, act)
    if via in ("write", "direct"):
        check(not os.path.exists(path), "a refused write left a file")
    if structure is None and type(err) in (bx.BorealisStructureError, bx.BorealisBadRecordsError):
        ctx.label("fell back to site")
        return
    msg = str(err)
    h = a.get("borealis_git_hash")
    if via != "check" and not isinstance(h, str):
        if isinstance(err, bx.BorealisStructureError):
            return
        fail(f"no readable hash, but {type(err).__name__}: {err}")
    if isinstance(err, bx.BorealisVersionError):
        check(h != p["version"], lambda: f"supported version {h} refused: {err}")
        return
    if isinstance(err, bx.BorealisFieldMissingError):
        check(set(err.fields) == t["missing"] != set(), lambda: f"missing {t['missing']}, reported {err.fields}")
        named = t["missing"]
    elif isinstance(err, bx.BorealisExtraFieldError):
        check(set(err.fields) == t["extra"] != set(), lambda: f"extra {t['extra']}, reported {err.fields}")
        named = t["extra"]
    elif isinstance(err, bx.BorealisDataFormatTypeError):
        check(set(err.incorrect_types) == t["types"] != set(), lambda: f"wrong types {t['types']}, reported {err.incorrect_types}")
        named = t["types"]
    elif isinstance(err, bx.BorealisNumberOfRecordsError):
        check(t["records"], lambda: f"number of records reported but consistent: {err}")
        named = un & set(a)
    elif isinstance(err, bx.BorealisStructureError):
        check(t["arrays"] or t["attrs"], lambda: f"structure error without cause: {err}")
        ok = [s for s in (t["arrays"], t["attrs"]) if s and all(f"'{k}'" in msg for k in s)]
        check(ok, lambda: f"structure error does not name {t['arrays']} or {t['attrs']}: {msg}")
        named = set()
        wrongly = [k for k in fields if f"'{k}'" in msg and k not in t["arrays"] | t["attrs"]]
        check(not wrongly, lambda: f"structure error names {wrongly}, which are as they should be")
    else:
        fail(f"unexpected error {type(err).__name__}: {err}")
    for k in named:
        check(k in msg, lambda: f"message does not name {k}: {msg}")
    check((path if via != "check" else "origin") in msg or isinstance(err, bx.BorealisStructureError), lambda: f"message does not name the file: {msg}")


@st.composite
def swcase(draw):
    return {"p": draw(G.params(max_rec=2)), "via": draw(st.sampled_from(["write", "direct", "read", "check"])), "sel": draw(st.integers(0, 40)), "structure": "array"}


class Quiet:
    def __init__(self, ctx):
        self.ctx, self.trivial = ctx, False

    def path(self, name):
        path = self.ctx.path(name)
        if os.path.exists(path):
            os.remove(path)
        return path

    def label(self, *a):
        pass


def sweep(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    ctx.label(c["via"])
    un = S.unshared(p["version"], p["ft"])
    for i, k in enumerate(sorted(S.array_fields(p["version"], p["ft"]))):
        ops = [("missing", 1, [k]), ("type", c["sel"] + 3 * i, k), ("type", c["sel"] + 3 * i + 1, k), ("swap", c["sel"] + i, k)]
        ops += [("records", how, [k]) for how in ("more", "less", "scalar") if k in un]
        for op in ops:
            run(dict(c, ops=[op]), Quiet(ctx))
            ctx.sub_evals += 1


SUBS = [Sub("validate", case, run, quick=1500, thorough=40000), Sub("sweep", swcase, sweep, quick=48, thorough=1500, shards=8)]
