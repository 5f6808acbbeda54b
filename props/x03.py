"""What an operation leaves behind in the process and on disk, and what a reader keeps when its file goes away."""
from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail, Violation
from lib import bgen as G, bspec as S, convcheck as C, dgen, refdmap as R
from props import x02 as X
from pydarnio import BorealisConvert, BorealisRead, BorealisRestructure, BorealisWrite, DmapRead, DmapWrite, SDarnRead, SDarnWrite
import contextlib, decimal, gc, h5py, locale, logging, os, random, signal, sys, tempfile, threading, warnings
import numpy as np

RULE = ("1-5 operations (reading, writing, restructuring, converting; good ones, ones refused for bad data, unknown types, missing, unreadable or non-HDF5 files, existing "
        "outputs) on one generated data set, the state of the process compared after each; separately, readers, writers and converters asked for everything after "
        "their file was removed, emptied or replaced; trivial never")
ASSUMPTIONS = ["state that numpy, h5py or the interpreter keep for themselves (caches, imported modules) is not judged"]

OTHER_OPS = ["missing", "directory", "garbage", "empty", "badtype", "outdir", "onto", "self"]


@st.composite
def case(draw):
    d = draw(X.dataset(max_rec=3, nonfinite=("rawacf", "bfiq")))
    some = st.sampled_from(range(16))
    if d["kind"] == "conv":
        some = st.one_of(some, st.sampled_from([i for i in range(16) if X.BOPS[i % len(X.BOPS)] in ("convert", "restructure")]))
    ops = draw(st.lists(st.tuples(st.one_of(some, some, st.sampled_from(OTHER_OPS)), st.booleans(), some), min_size=1, max_size=5))
    return {"set": d, "ops": ops, "umask": draw(st.sampled_from([0o22, 0o77, 0o2])), "hold": draw(st.booleans())}


def opened():
    fds = []
    for n in os.listdir("/proc/self/fd"):
        try:
            fds.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:     # the directory just listed
            pass
    return sorted(x for x in fds if x[1].startswith("/") and "/proc/" not in x[1])


def state():
    """What other code in the process could notice."""
    mask = os.umask(0)
    os.umask(mask)
    log = {}
    for name in ["", "pyDARNio", "py.warnings"]:
        g = logging.getLogger(name)
        log[name] = (g.level, list(g.handlers), g.disabled, g.propagate, list(g.filters))
    cfg = h5py.get_config()
    return {"working directory": os.getcwd(), "environment": dict(os.environ), "file creation mask": mask, "warning filters": list(warnings.filters),
            "warning functions": (warnings.showwarning, warnings.formatwarning), "floating point errors": np.geterr(), "print options": repr(np.get_printoptions()),
            "random state": (random.getstate(), [str(x) for x in np.random.get_state()]), "logging": (log, logging.root.manager.disable, logging.getLevelName(30)),
            "threads": sorted(t.name for t in threading.enumerate()), "locale": locale.setlocale(locale.LC_ALL), "module path": list(sys.path),
            "decimal context": repr(decimal.getcontext()), "h5py configuration": (cfg.complex_names, cfg.bool_names, cfg.track_order),
            "recursion limit": sys.getrecursionlimit(), "garbage collection": (gc.isenabled(), gc.get_threshold()), "temporary directory": tempfile.gettempdir(),
            "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGHUP)],
            "standard streams": (sys.stdin, sys.stdout, sys.stderr), "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), threading.excepthook),
            "open files": opened()}


def tree(d):
    return sorted(os.path.join(a, x) for a, b, c in os.walk(d) for x in b + c)


def extra_op(d, inp, op, flag, k, out, ctx):
    """Operations that are refused."""
    borealis = "p" in d
    p = inp["path"]
    if op == "missing":
        p = ctx.path("nowhere")
    elif op in ("directory", "garbage", "empty"):
        p = ctx.path(op)
    if op == "onto":
        # an existing output
        with open(p, "rb") as f, open(out, "wb") as g:
            g.write(f.read())
    if not borealis:
        if op in ("outdir", "onto", "badtype"):
            target = ctx.path("directory") if op == "outdir" else out
            w = (SDarnWrite if flag else DmapWrite)(inp["shared"][:0] if op == "badtype" and not flag else inp["shared"], target)
            return getattr(w, "write_" + (d["fmt"] if flag else "dmap"))(target)
        r = (SDarnRead if flag else DmapRead)(p)
        r.test_initial_data_integrity()
        return getattr(r, "read_" + (d["fmt"] if flag else "records"))()
    ft = "nosuch" if op == "badtype" else d["p"]["ft"]
    s = d["store"]
    other = "array" if s == "site" else "site"
    if op == "outdir":
        out = ctx.path("directory")
    if op == "self":
        out = p
    what = ["read", "write", "restructure", "convert"][k % 4]
    if what == "read":
        return BorealisRead(p, ft, [None, s, other][k % 3])
    if what == "write":
        return BorealisWrite(out if op != "self" else ctx.path("directory"), inp["data"], ft, [None, s, other][k % 3], *(["nosuch"] if flag else []))
    if what == "restructure":
        return BorealisRestructure(p, out, ft, [other, s][k % 2])
    return BorealisConvert(p, ft, out, 1, [None, s, other][k % 3])


@contextlib.contextmanager
def unusual(umask, tmp):
    """A state of the process that no library would set by chance."""
    mask, env, tempdir, level = os.umask(umask), os.environ.get("TMPDIR"), tempfile.tempdir, logging.root.manager.disable
    floating, options, seeds = np.seterr(divide="ignore", over="warn", under="ignore", invalid="warn"), np.get_printoptions(), (random.getstate(), np.random.get_state())
    try:
        os.environ["TMPDIR"] = tempfile.tempdir = tmp
        logging.disable(99)
        random.seed(20)
        np.random.seed(21)
        np.set_printoptions(precision=7, threshold=999, linewidth=76)
        with warnings.catch_warnings(record=True):
            warnings.resetwarnings()
            warnings.filterwarnings("default", "whatever")
            yield
    finally:
        np.set_printoptions(**options)
        random.setstate(seeds[0])
        np.random.set_state(seeds[1])
        np.seterr(**floating)
        logging.disable(level)
        os.umask(mask)
        tempfile.tempdir = tempdir
        if env is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = env


def run(c, ctx):
    d = c["set"]
    path = ctx.path("in")
    os.mkdir(ctx.path("directory"))
    with open(ctx.path("garbage"), "wb") as f:
        f.write(b"no HDF5 file " * 99)
    open(ctx.path("empty"), "wb").close()
    os.mkdir(ctx.path("tmp"))
    inp = X.prepare(d, path)
    if "recs" in inp:
        inp["shared"] = [inp["recs"](r, d["how"]) for r in d["recs"]]
    ctx.label(d["kind"])
    keep = []
    with unusual(c["umask"], os.path.abspath(ctx.path("tmp"))):
        for i, (op, flag, k) in enumerate(c["ops"]):
            out = ctx.path(f"out{i}")
            before, files = state(), tree(ctx.dir)
            try:
                if isinstance(op, int):
                    keep.append(X.perform(d, inp, op, flag, out))
                    what = keep[-1][0]
                else:
                    what = op
                    keep.append(extra_op(d, inp, op, flag, k, out, ctx))
                done = "done"
            except Exception as e:      # refusals are the business of other properties
                keep.append(e)
                done, what = "refused", what if not isinstance(op, int) else "operation"
            if not c["hold"]:
                keep.clear()
            ctx.label(f"{what} {done}")
            after = state()
            for n in before:
                check(before[n] == after[n], lambda: f"operation {i} ({what}, {done}) changed the {n}: {before[n]!r:.500} -> {after[n]!r:.500}")
            new = [x for x in tree(ctx.dir) if x not in files and os.path.abspath(x) != os.path.abspath(out)]
            check(not new, lambda: f"operation {i} ({what}, {done}) left {[os.path.basename(x) for x in new]}")
    ctx.sub_evals = len(c["ops"])


@st.composite
def gcase(draw):
    d = draw(X.dataset(max_rec=3, nonfinite=("rawacf", "bfiq")))
    d["spoil"] = None
    d["cut"] = 0
    return {"set": d, "how": draw(st.sampled_from(["removed", "emptied", "replaced", "overwritten"])), "object": draw(st.integers(0, 2)), "flag": draw(st.booleans()),
            "asked": draw(st.booleans())}


def gone(c, ctx):
    d = c["set"]
    path, out = ctx.path("in"), ctx.path("out")
    inp = X.prepare(d, path)
    if "recs" in inp:
        inp["shared"] = [inp["recs"](r, d["how"]) for r in d["recs"]]

    def make():
        """An object and the questions to ask it."""
        if "p" not in d:
            if d["kind"] == "sd" and not d["muts"] and c["object"]:
                r = SDarnRead(path)
                return r, path, lambda: [list(getattr(r, "read_" + d["fmt"])()), list(r.get_dmap_records)]
            if c["flag"]:
                r = DmapRead(bytearray(inp["stream"]), True)
                return r, None, lambda: [list(r.read_records()), list(r.get_dmap_records)]
            r = DmapRead(path)
            return r, path, lambda: [list(r.read_records()), list(r.get_dmap_records)]
        ft, s = d["p"]["ft"], d["store"]
        both = ft in S.RESTRUCT

        def views(b):
            return lambda: [b.borealis_file_structure, b.software_version, b.borealis_filetype, str(b)] + ([list(b.record_names), b.records, b.arrays] if both else
                                                                                                              [b.records, list(b.record_names)])
        if c["object"] == 1:
            if os.path.exists(out):
                os.remove(out)
            w = BorealisWrite(out, inp["data"], ft, s)
            return w, out, views(w)
        if c["object"] == 2 and d["kind"] == "conv":
            b = C.go(d, path, out, s)
            more = views(b)
            return b, path, lambda: more() + [b.sdarn_dict, [[tuple(v) for v in r.values()] for r in b.sdarn_dmap_records], b.sdarn_filetype]
        b = BorealisRead(path, ft, s if c["flag"] else None)
        return b, path, views(b)
    with must("the operation"):
        want = make()[2]()
        obj, file, ask = make()
        if c["asked"] and "p" in d:
            ask()
    ctx.label(type(obj).__name__, c["how"])
    if file is not None:
        if c["how"] == "removed":
            os.remove(file)
        elif c["how"] == "emptied":
            os.truncate(file, 0)
        elif c["how"] == "replaced":
            os.rename(file, file + ".old")
            with open(file, "wb") as f:
                f.write(b"something else")
        else:
            size = os.path.getsize(file)
            with open(file, "r+b") as f:
                f.write(b"\xff" * size)
    with must(f"asking the {type(obj).__name__} after its file was {c['how']}"):
        got = ask()
    check(X.same(want, got), lambda: f"{type(obj).__name__} gives other answers after its file was {c['how']}")


SUBS = [Sub("traces", case, run, quick=500, thorough=20000), Sub("gone", gcase, gone, quick=250, thorough=10000)]
