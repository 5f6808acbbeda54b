from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5, convcheck as C, dgen, sdgen, refdmap as R
from pydarnio import (BorealisConvert, BorealisRead, BorealisRestructure, BorealisWrite, DmapRead, DmapWrite, SDarnRead, SDarnWrite, borealis_exceptions as bx,
                      dmap_exceptions as dx, superdarn_exceptions as sx, only_message_warning_format, standard_warning_format)
from pydarnio.borealis.borealis_array import BorealisArrayRead, BorealisArrayWrite
from pydarnio.borealis.borealis_site import BorealisSiteRead, BorealisSiteWrite
import os

RULE = ("every error class with random documented arguments (text with format characters, non-ASCII, empty); every reader, writer, restructurer and converter on "
        "generated files printed before, between and after its operations, also failing ones; trivial never")
ASSUMPTIONS = ["error arguments have the documented types"]

text = st.one_of(st.sampled_from(["", "a", "/data/20190101.C0.sas.rawacf.hdf5", "{}", "{filename}", "%s %d", "ø☃", "a b\nc", "'", "{0}", "\\"]), st.text(max_size=12))
num = st.integers(-2**70, 2**70)
fset = st.one_of(st.sets(text, max_size=4), st.sets(text, max_size=4), st.integers(5, 60).map(lambda n: {f"field.{i}" for i in range(n)}))
kinds = st.sampled_from(["<class 'str'>", "np.ndarray of x", "h"])
fdict = st.one_of(st.dictionaries(text, kinds, max_size=4), st.tuples(st.integers(5, 60), kinds).map(lambda x: {f"field.{i}": x[1] for i in range(x[0])}))
rdict = st.one_of(st.dictionaries(text, fset, max_size=3), st.tuples(st.integers(4, 40), fset).map(lambda x: {f"15{i}": x[1] for i in range(x[0])}))
# class -> [(argument, values, in the message, attribute holding it)]
ERRORS = {
    bx.BorealisBadRecordsError: [("filename", text, 1, "filename"), ("missing_dict", rdict, 1, "missing_fields"), ("extra_dict", rdict, 1, "extra_fields"),
                                 ("incorrect_dict", st.dictionaries(text, fdict, max_size=2), 1, "incorrect_fields")],
    bx.BorealisFileTypeError: [("filename", text, 1, "filename"), ("file_type", text, 1, "file_type")],
    bx.BorealisFieldMissingError: [("filename", text, 1, "filename"), ("fields", fset, 1, "fields"), ("record_name", st.one_of(text, num), 1, "record_name")],
    bx.BorealisExtraFieldError: [("filename", text, 1, None), ("fields", fset, 1, "fields"), ("record_name", st.one_of(text, num), 1, "record_name")],
    bx.BorealisDataFormatTypeError: [("filename", text, 1, None), ("incorrect_types", fdict, 1, "incorrect_types"), ("record_name", st.one_of(text, num), 1, "record_name")],
    bx.BorealisNumberOfRecordsError: [("filename", text, 1, "filename"), ("array_types", st.dictionaries(text, st.tuples(num), max_size=4), 1, "array_types")],
    bx.BorealisConversionTypesError: [("dmap_filename", text, 1, None), ("origin_filetype", text, 1, None), ("allowed_types", st.dictionaries(text, text, max_size=3), 1, None)],
    bx.BorealisConvert2IqdatError: [("error_str", text, 1, None)], bx.BorealisConvert2RawacfError: [("error_str", text, 1, None)],
    bx.BorealisRestructureError: [("error_str", text, 1, None)], bx.BorealisStructureError: [("error_str", text, 1, None)],
    bx.ConvertFileOverWriteError: [("filename", text, 1, None)],
    bx.BorealisVersionError: [("filename", text, 1, "filename"), ("file_version", text, 1, "file_version")],
    dx.CursorError: [("cursor", num, 1, "cursor"), ("expected_value", num, 1, None), ("rec_num", num, 1, None)],
    dx.EmptyFileError: [("filename", text, 1, "filename")],
    dx.DmapCharError: [("data_name", text, 1, "data_name"), ("rec_num", num, 1, "rec_num")],
    dx.DmapDataTypeError: [("filename", text, 1, "filename"), ("data_name", text, 1, None), ("data_type", text, 1, None), ("rec_num", num, 1, None)],
    dx.NegativeByteError: [("filename", text, 1, "filename"), ("element_info", text, 1, None), ("rec_num", num, 1, None)],
    dx.ZeroByteError: [("filename", text, 1, "filename"), ("element_info", text, 1, None), ("rec_num", num, 1, None)],
    dx.MismatchByteError: [("filename", text, 1, "filename"), ("element_info", text, 1, None), ("rec_num", num, 1, "rec_num")],
    dx.DmapDataError: [("filename", text, 1, "filename"), ("message", text, 1, None)],
    dx.DmapTypeError: [("filename", text, 1, "filename"), ("data_type", text, 1, "data_type"), ("rec_num", num, 1, "rec_num")],
    dx.FilenameRequiredError: [],
    sx.SuperDARNFileTypeError: [("filename", text, 1, "filename"), ("file_type", text, 1, "file_type")],
    sx.SuperDARNFieldMissingError: [("record_num", num, 1, "record_number"), ("fields", fset, 1, "fields")],
    sx.SuperDARNExtraFieldError: [("record_num", num, 1, "record_number"), ("fields", fset, 1, "fields")],
    sx.SuperDARNDataFormatTypeError: [("incorrect_types", fset, 1, "incorrect_params"), ("record_num", num, 1, "record_number")],
}
NAMES = {c.__name__: c for c in ERRORS}


@st.composite
def ecase(draw):
    cls = draw(st.sampled_from(sorted(NAMES)))
    return {"cls": cls, "args": [draw(a[1]) for a in ERRORS[NAMES[cls]]], "optional": draw(st.booleans()), "message": draw(text), "keyword": draw(st.booleans())}


def parts(v):
    """The pieces of a value a message must show."""
    if isinstance(v, dict):
        return [p for k, x in v.items() for p in parts(k) + parts(x)]
    if isinstance(v, (set, tuple, list)):
        return [p for x in v for p in parts(x)]
    return [v]


def shown(v, msg):
    return all(str(p) in msg or repr(p) in msg or repr(p)[1:-1] in msg for p in parts(v))


def errors(c, ctx):
    ctx.label(c["cls"])
    cls = NAMES[c["cls"]]
    spec = list(zip(ERRORS[cls], c["args"]))
    args, kw = [], {}
    for (name, _, _, _), v in spec:
        if name == "record_name":
            if c["optional"]:
                kw[name] = v
        elif c["keyword"]:
            kw[name] = v
        else:
            args.append(v)
    if "record_name" not in kw:
        spec = [x for x in spec if x[0][0] != "record_name"]
    with must(f"constructing {c['cls']}"):
        e = cls(*args, **kw)
    try:
        raise e
    except cls as got:
        e = got
    with must("printing the error"):
        msg = str(e)
        rep = repr(e)
    check(e.message == msg != "", lambda: f"message attribute {e.message!r}, printed {msg!r}")
    check(c["cls"] in rep, lambda: f"repr does not name the class: {rep}")
    for (name, _, inmsg, attr), v in spec:
        check(shown(v, msg), lambda: f"{name}={v!r} not shown in the message {msg!r}")
        if attr:
            check(getattr(e, attr, None) == v, lambda: f"attribute {attr} is {getattr(e, attr, None)!r}, given {v!r}")
    if cls is dx.CursorError and c["message"]:
        e2 = cls(*c["args"], c["message"])
        check(c["message"] in str(e2) and e2.cursor == c["args"][0], lambda: f"own message {c['message']!r} gives {str(e2)!r}")


@st.composite
def wcase(draw):
    return {"message": draw(text), "filename": draw(text), "line": draw(st.integers(0, 10**6)), "cat": draw(st.integers(0, 3))}


def formatters(c, ctx):
    cat = [UserWarning, DeprecationWarning, RuntimeWarning, type("Odd", (Warning,), {})][c["cat"]]
    msg = cat(c["message"]) if c["line"] % 2 else c["message"]
    a = standard_warning_format(msg, cat, c["filename"], c["line"])
    b = only_message_warning_format(msg, cat, c["filename"], c["line"], None, "source")
    for out in (a, b):
        check(c["message"] in out and cat.__name__ in out and out.endswith("\n"), lambda: f"formatted {out!r}")
    check(c["filename"] in a and str(c["line"]) in a, lambda: f"formatted {a!r}")


def show(x, names, when):
    with must(f"printing {type(x).__name__} {when}"):
        r, s = repr(x), str(x)
    check(isinstance(r, str) and isinstance(s, str) and type(x).__name__ in r, lambda: f"repr {r!r}")
    for text in (r, s):
        check(any(n in text for n in names), lambda: f"{type(x).__name__} {when}: {text!r} shows none of {names}")


@st.composite
def dcase(draw):
    c = draw(sdgen.sdfile(max_records=3))
    c["cut"] = draw(st.one_of(st.none(), st.integers(0, 10**6)))
    c["stream"], c["sd"], c["typed"] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    c["bad"] = draw(st.sampled_from([None, None, "type", "format", "nofile"]))
    return c


def dmap_objects(c, ctx):
    fmt, recs = c["fmt"], c["recs"]
    ctx.label("stream" if c["stream"] else "file", "damaged" if c["cut"] is not None else "intact", str(c["bad"]))
    data = R.encode(recs)
    if c["cut"] is not None:
        data = data[:1 + c["cut"] % len(data)]
    path, out = ctx.path("in.dmap"), ctx.path("out.dmap")
    with open(path, "wb") as f:
        f.write(data)
    cls = SDarnRead if c["sd"] else DmapRead
    with must("opening"):
        r = cls(data, True) if c["stream"] else cls(path)
    names = ["stream"] if c["stream"] else [path]
    show(r, names, "before reading")
    for _ in range(2):
        try:
            getattr(r, "read_" + fmt)() if c["sd"] else r.read_records()
        except Exception:
            pass
        show(r, names, "after reading")
    src = [(dgen.present_dmap if c["typed"] else dgen.present_dict)(x, ["plain"]) for x in recs]
    if c["bad"] == "type":
        src[-1] = dict(src[-1], cp=object())
    wcls = SDarnWrite if c["sd"] else DmapWrite
    try:
        w = wcls(src, out)
    except Exception:
        return
    show(w, [out], "before writing")
    name = fmt if c["bad"] != "format" else {"rawacf": "grid"}.get(fmt, "rawacf")
    try:
        target = os.path.join(ctx.dir, "no", "dir") if c["bad"] == "nofile" else out
        getattr(w, "write_" + name)(target) if c["sd"] else w.write_dmap(target)
    except Exception:
        pass
    show(w, [out, os.path.join(ctx.dir, "no", "dir")], "after writing")


@st.composite
def bcase(draw):
    conv = draw(st.booleans())
    p = draw(G.conv_params(max_rec=2) if conv else G.params(fts=S.FT, max_rec=2))
    return {"p": p, "store": "site" if p["ft"] == "rawrf" else draw(st.sampled_from(["site", "array"])), "sf": 1, "stated": draw(st.booleans()), "slice": 1, "by": "radar"}


def borealis_objects(c, ctx):
    p, s = c["p"], c["store"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    ctx.label(s)
    recs = G.build(p)
    arrays = G.to_arrays(v, ft, recs) if ft in S.RESTRUCT else None
    src = ctx.path("in.hdf5")
    C.store(c, src, recs)
    data = recs if s == "site" else arrays
    with must("opening and writing"):
        objs = [(BorealisRead(src, ft, s if c["stated"] else None), [src]), ((BorealisSiteRead if s == "site" else BorealisArrayRead)(src, ft), [src]),
                (BorealisWrite(ctx.path("o1"), data, ft, s if c["stated"] else None), [ctx.path("o1")]),
                ((BorealisSiteWrite if s == "site" else BorealisArrayWrite)(ctx.path("o2"), data, ft), [ctx.path("o2")])]
    for x, names in objs:
        show(x, names, "after construction")
        for view in ("records", "arrays", "record_names"):
            try:
                getattr(x, view)
            except bx.BorealisRestructureError:
                check(ft == "rawrf", lambda: f"{view} of {type(x).__name__} failed")
            show(x, names, "after " + view)
    if arrays is not None:
        for to in ("site", "array"):
            with must("restructuring"):
                r = BorealisRestructure(src, ctx.path("r" + to), ft, to)
            with must("printing the restructurer"):
                texts = [repr(r), str(r)]
            for t in texts:
                check(src in t and ctx.path("r" + to) in t, lambda: f"restructurer shown as {t!r}")
    if p.get("conv"):
        out = ctx.path("out.dmap")
        with must("converting"):
            b = C.go(c, src, out, s)
        show(b, [out, src], "after conversion")
        check(out in str(b), lambda: f"converter printed as {str(b)!r}")


SUBS = [Sub("errors", ecase, errors, quick=1500, thorough=40000), Sub("warnings", wcase, formatters, quick=200, thorough=4000),
        Sub("dmap", dcase, dmap_objects, quick=300, thorough=8000), Sub("borealis", bcase, borealis_objects, quick=150, thorough=4000)]
