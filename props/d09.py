from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, sdformats as F
import os, collections
import numpy as np
from pydarnio import SDarnWrite, DmapRead, DmapWrite, DmapScalar, DmapArray, dict2dmap, dmap_exceptions as dx

RULE = ("valid records with one offending item (string array, text for char, integer out of the range of its type, entry that is no typed DMap "
        "data, unrepresentable value) at a random record and field, or no records, or no file name; written to a fresh path, over an existing "
        "file, or as a stream; non-trivial: always")
ASSUMPTIONS = ["a typed array whose declared type contradicts its numpy dtype is outside the property (the plain writer documents that it does not check)"]

CODES_I = {1: (-128, 127), 2: (-2**15, 2**15 - 1), 3: (-2**31, 2**31 - 1), 10: (-2**63, 2**63 - 1), 16: (0, 255), 17: (0, 2**16 - 1), 18: (0, 2**32 - 1), 19: (0, 2**64 - 1)}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["range", "range", "chartext", "strarray", "untyped", "pybig", "unrepresentable", "empty", "noname"]))
    recs = draw(dgen.records(4, max_scalars=3, max_arrays=2))
    i = draw(st.integers(0, len(recs) - 1))
    c = {"kind": kind, "recs": recs, "rec": i, "pos": draw(st.integers(0, 6)), "old": draw(st.sampled_from([None, b"", b"old bytes", b"x" * 5000])),
         "via": draw(st.sampled_from(["write", "ctor", "both"])), "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS), min_size=1, max_size=3)),
         "box": draw(st.sampled_from(["list", "tuple", "deque"])), "twice": draw(st.booleans()), "good": draw(st.booleans()),
         "fmt": draw(st.sampled_from(F.NAMES)),
         "pad": draw(st.one_of(st.just((0, 0)), st.just((0, 0)), st.just((0, 0)), st.tuples(st.integers(0, 5), st.integers(0, 5)), st.tuples(st.integers(0, 300), st.integers(0, 300))))}
    if kind == "range":
        code = draw(st.sampled_from(sorted(CODES_I)))
        lo, hi = CODES_I[code]
        c["item"] = (code, draw(st.sampled_from([lo - 1, hi + 1, 2 * hi + 1, 2 * lo - 1, hi + 2**65, lo - 2**65])))
    elif kind == "chartext":
        c["item"] = draw(st.sampled_from(["scalar1", "scalarn", "array", "array1", "array2d"]))
    elif kind == "strarray":
        c["item"] = draw(st.sampled_from(["1d", "2d", "one"]))
    elif kind == "untyped":
        c["item"] = draw(st.sampled_from(["int", "str", "none", "array", "tuple", "list"]))
    elif kind == "pybig":
        c["item"] = draw(st.sampled_from([2**31, -2**31 - 1, 2**32, 2**63, 2**70]))
    elif kind == "unrepresentable":
        from props.d08 import BAD
        c["item"] = draw(st.sampled_from(sorted(BAD)))
    return c


def offending(c, name):
    """(typed?, value, expected exceptions)"""
    k, it = c["kind"], c.get("item")
    if k == "range":
        return True, DmapScalar(name, it[1], it[0], R.FMT[it[0]]), Exception
    if k == "chartext":
        v = {"scalar1": "a", "scalarn": "abc", "array": np.array(["a", "b"]), "array1": np.array(["a"]), "array2d": np.array([["a", "b"], ["c", "d"]])}[it]
        if it.startswith("scalar"):
            return True, DmapScalar(name, v, 1, "c"), dx.DmapCharError
        return True, DmapArray(name, v, 1, "c", v.ndim, list(v.shape)), dx.DmapCharError
    if k == "strarray":
        v = {"1d": np.array(["a", "bcd"]), "2d": np.array([["a"], ["b"]]), "one": np.array([""])}[it]
        return True, DmapArray(name, v, 9, "s", v.ndim, list(v.shape)), dx.DmapDataError
    if k == "untyped":
        return True, {"int": 5, "str": "abc", "none": None, "array": np.ones(3), "tuple": (name, 1, 2, "h"), "list": [1, 2]}[it], dx.DmapTypeError
    if k == "pybig":
        return False, it, Exception
    from props.d08 import BAD
    return False, BAD[it](), Exception


def run(c, ctx):
    k = c["kind"]
    ctx.label(k, f"existing-file={c['old'] is not None}", "via-" + c["via"])
    path = ctx.path("out.dmap")
    if c["old"] is not None:
        open(path, "wb").write(c["old"])
    exc = Exception
    if k == "empty":
        src, exc = [], dx.DmapDataError
    elif k == "noname":
        src, exc = [dgen.present_dict(r, c["how"]) for r in c["recs"]], dx.FilenameRequiredError
    else:
        name = "bad"
        while any(name == f[1] for r in c["recs"] for f in r):
            name += "_"
        typed, bad, exc = offending(c, name)
        src = [(dgen.present_dmap if typed else dgen.present_dict)(r, c["how"]) for r in c["recs"]]
        items = list(src[c["rec"]].items())
        # the writer tells typed from plain input by the first entry of the first record
        lo = 1 if k == "untyped" and c["rec"] == 0 and not c["pad"][0] else 0
        items.insert(max(lo, min(c["pos"], len(items))), (name, bad))
        src[c["rec"]] = collections.OrderedDict(items)
        # many good records before and after those with the bad one
        good = [(dgen.present_dmap if typed else dgen.present_dict)(c["recs"][0], c["how"])]
        src = good * c["pad"][0] + src + good * c["pad"][1]
        ctx.label("bad-in-later-record" if c["rec"] or c["pad"][0] else "bad-in-first-record", "many records" if len(src) > 64 else "few records")
    src = {"list": list, "tuple": tuple, "deque": collections.deque}[c["box"]](src)
    n = 0

    def attempt(what, fn):
        nonlocal n
        n += 1
        try:
            fn()
        except exc:
            pass
        except Exception as e:
            fail(f"{what}: expected {exc.__name__}, got {type(e).__name__}: {str(e)[:200]}")
        else:
            fail(f"{what} succeeded")
        here = sorted(os.listdir(ctx.dir))
        check(here == ([] if c["old"] is None else ["out.dmap"]), lambda: f"{what} left files {here}")
        if c["old"] is not None:
            check(open(path, "rb").read() == c["old"], f"{what} changed the existing file")
    cwd = os.getcwd()
    os.chdir(ctx.dir)
    try:
        if k == "noname":
            attempt("writing without a file name", lambda: DmapWrite(src).write_dmap())
            attempt("writing without a file name", lambda: DmapWrite(src).write_dmap(""))
        elif c["via"] == "write":
            attempt("write_dmap", lambda: DmapWrite(src).write_dmap(path))
        elif c["via"] == "ctor":
            attempt("write_dmap", lambda: DmapWrite(src, path).write_dmap())
        else:
            attempt("write_dmap", lambda: DmapWrite(src, "other").write_dmap(path))
        if k in ("noname", "empty"):
            # the checks of the formats do not come before these
            name = "" if k == "noname" else path
            f = "write_" + c["fmt"]
            attempt("SDarnWrite." + f, lambda: getattr(SDarnWrite(src, "" if c["via"] == "write" else name), f)(*([] if c["via"] == "ctor" else [name])))
        if k != "noname":
            attempt("write_dmap_stream", lambda: DmapWrite(src).write_dmap_stream())
            if len(src):
                attempt("write_dmap_stream(records)", lambda: DmapWrite().write_dmap_stream(src))
            if c["twice"]:
                def twice():
                    w = DmapWrite(src, path)
                    try:
                        w.write_dmap()
                    except Exception:
                        pass
                    w.write_dmap()
                attempt("second attempt of write_dmap", twice)
    finally:
        os.chdir(cwd)
    if c["good"]:
        p = ctx.path("good")
        with must("writing good records after refused ones"):
            DmapWrite([dgen.present_dict(r, c["how"]) for r in c["recs"]]).write_dmap(p)
        check(open(p, "rb").read() == R.encode(c["recs"]), "bytes of a good write after refused ones differ")
        os.unlink(p)
    ctx.sub_evals = n


SUBS = [Sub("refused", case, run, 2400, 40000)]
