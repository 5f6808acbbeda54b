"""Independent readers, writers, restructurings and conversions in interleaved threads."""
from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail, Violation
from lib import bgen as G, bspec as S, bh5, convcheck as C, cmpx, dgen, sdgen, sched, refdmap as R
from pydarnio import (BorealisConvert, BorealisRead, BorealisRestructure, BorealisWrite, DmapArray, DmapRead, DmapScalar, DmapWrite, SDarnRead, SDarnWrite)
from pydarnio.borealis.borealis_array import BorealisArrayRead, BorealisArrayWrite
from pydarnio.borealis.borealis_site import BorealisSiteRead, BorealisSiteWrite
import copy, os, pickle
import numpy as np

RULE = ("2-3 threads of 1-3 operations each (reading, writing, restructuring, converting, some of them failing) on 1-3 shared data sets or separate ones, control handed "
        "over at generated lines or instructions of pydarnio; non-trivial: at least one hand-over between operations that are not finished")
ASSUMPTIONS = ["the threads share input files and input data but neither objects of pydarnio nor output files"]

DOPS = ["read", "readstream", "sdread", "sdreadstream", "write", "writestream", "sdwrite"]
BOPS = ["open", "view", "view", "bwrite", "wview", "restructure", "convert", "convert"]


@st.composite
def dataset(draw, max_rec=2, nonfinite=(), kind=None):
    kind = kind or draw(st.sampled_from(["dmap", "sd", "borealis", "borealis", "conv"]))
    d = {"kind": kind}
    if kind == "dmap":
        d["recs"], d["fmt"] = draw(dgen.records(3, max_scalars=3, max_arrays=3)), draw(st.sampled_from(["rawacf", "grid"]))
    elif kind == "sd":
        d.update(draw(sdgen.sdfile(max_records=2, muts=draw(st.sampled_from([False, False, True])))))
    else:
        p = draw(G.conv_params(max_rec=max_rec, nonfinite=nonfinite) if kind == "conv" else G.params(fts=S.FT, max_rec=max_rec))
        d.update(p=p, store="site" if p["ft"] == "rawrf" else draw(st.sampled_from(["site", "array"])), sf=draw(st.sampled_from([1, 2])), stated=draw(st.booleans()),
                 slice=1, by=draw(st.sampled_from(["radar", "radar+"])), spoil=draw(st.sampled_from([None] * 6 + ["missing", "extra", "type", "count"])))
    if kind in ("dmap", "sd"):
        d.update(typed=draw(st.booleans()), how=draw(st.lists(st.sampled_from(dgen.LAYOUTS), min_size=1, max_size=3)), cut=draw(st.sampled_from([0, 0, 0, 0, 0, 1, 7])))
    return d


@st.composite
def case(draw):
    sets = draw(st.lists(dataset(), min_size=1, max_size=3))
    op = st.tuples(st.integers(0, len(sets) - 1), st.integers(0, 15), st.booleans())
    threads = draw(st.lists(st.lists(op, min_size=1, max_size=2), min_size=2, max_size=3))
    if draw(st.booleans()):
        # the threads do the same to data of the same kind, format and size but other content
        first = sets[0]
        if "p" in first:
            sets = [first] + [dict(first, p=dict(first["p"], seed=first["p"]["seed"] ^ (i + 1))) for i in range(draw(st.integers(0, 2)))]
        else:
            sets = [first] + [dict(first, recs=x) for x in (first["recs"][::-1], first["recs"] * 2)[:draw(st.integers(0, 2))]]
        threads = [[(i % len(sets), k, flag) for _, k, flag in threads[0]] for i in range(len(threads))]
    return {"sets": sets, "threads": threads, "opcodes": draw(st.booleans()),
            "runs": draw(st.lists(st.one_of(st.integers(1, 6), st.integers(1, 60), st.integers(1, 600), st.integers(1, 6000)), min_size=1, max_size=30))}


@st.composite
def kin_case(draw):
    """The threads do the same to data of the same kind but other formats or versions."""
    kind = draw(st.sampled_from(["sd"] * 9 + ["dmap"] * 2 + ["borealis", "conv"]))
    n = draw(st.integers(2, 3)) if kind == "sd" else 2
    sets = [draw(dataset(kind=kind, max_rec=1)) for _ in range(n)]
    ops = draw(st.lists(st.tuples(st.sampled_from([DOPS.index("sdread"), DOPS.index("sdwrite"), DOPS.index("sdreadstream")]) if kind == "sd" else st.integers(0, 15), st.booleans()), min_size=1, max_size=2))
    return {"sets": sets, "threads": [[(i, k, flag) for k, flag in ops] for i in range(n)], "opcodes": draw(st.booleans()),
            "runs": draw(st.lists(st.one_of(st.integers(1, 6), st.integers(1, 60), st.integers(1, 600)), min_size=1, max_size=30))}


def prepare(d, path):
    """Store the data set at path; returns the caller's data."""
    if d["kind"] in ("dmap", "sd"):
        data = R.encode(d["recs"])
        data = data[:len(data) - d["cut"]]
        with open(path, "wb") as f:
            f.write(data)
        return {"stream": data, "recs": (dgen.present_dmap if d["typed"] else dgen.present_dict), "path": path}
    p = d["p"]
    recs = G.build(p)
    arrays = G.to_arrays(p["version"], p["ft"], recs) if p["ft"] in S.RESTRUCT else None
    data = recs if d["store"] == "site" else arrays
    last = list(recs.values())[-1] if d["store"] == "site" else arrays
    if d["spoil"] == "missing":
        del last["station"]
    elif d["spoil"] == "extra":
        last["other_field"] = np.float32(1)
    elif d["spoil"] == "type":
        last["rx_sample_rate"] = "fast"
    elif d["spoil"] == "count":
        last["num_sequences"] = last["num_sequences"][1:] if d["store"] == "array" else np.int64(last["num_sequences"] + 1)
    (bh5.write_site if d["store"] == "site" else bh5.write_array)(path, data, extra=d["by"] == "radar+")
    return {"data": data, "path": path}


def perform(d, inp, k, flag, out):
    """One operation; everything it shows."""
    if d["kind"] in ("dmap", "sd"):
        o = DOPS[k % len(DOPS)]
        if o in ("read", "readstream", "sdread", "sdreadstream"):
            src = (inp["stream"], True) if o.endswith("stream") else (inp["path"],)
            r = (SDarnRead if o[:2] == "sd" else DmapRead)(*src)
            plain = getattr(r, "read_" + d["fmt"])() if o[:2] == "sd" else r.read_records()
            return [o, list(plain), [{n: (v.dmap_type if hasattr(v, "dmap_type") else None, getattr(v, "data_type_fmt", None), v.value if hasattr(v, "value") else v)
                                      for n, v in x.items()} for x in r.get_dmap_records]]
        if o == "sdwrite":
            w = SDarnWrite(inp["shared"], out)
            getattr(w, "write_" + d["fmt"])(out)
        else:
            w = DmapWrite(inp["shared"], out)
            if o == "writestream":
                return [o, bytes(w.write_dmap_stream())]
            w.write_dmap(out)
        with open(out, "rb") as f:
            return [o, f.read()]
    o = BOPS[k % len(BOPS)]
    if o == "convert" and d["kind"] != "conv":
        o = "direct"
    s, ft = d["store"], d["p"]["ft"]
    other = "array" if s == "site" else "site"
    if o == "open":
        r = BorealisRead(inp["path"], ft, s if flag else None)
        return [o, r.borealis_file_structure, r.software_version, r.records if s == "site" else r.arrays]
    if o == "view":
        r = BorealisRead(inp["path"], ft)
        return [o, r.arrays if flag else r.records, list(r.record_names)]
    if o == "direct":
        r = (BorealisSiteRead if s == "site" else BorealisArrayRead)(inp["path"], ft)
        return [o, r.arrays if flag else r.records]
    if o == "wview":
        w = BorealisWrite(out, inp["data"], ft)
        return [o, w.arrays if flag else w.records]
    if o == "bwrite":
        w = BorealisWrite(out, inp["data"], ft, s) if flag else (BorealisSiteWrite if s == "site" else BorealisArrayWrite)(out, inp["data"], ft)
        return [o, list(w.record_names), (bh5.read_site if s == "site" else bh5.read_array)(out)]
    if o == "restructure":
        to = other if k < 8 else s
        BorealisRestructure(inp["path"], out, ft, to)
        return [o, (bh5.read_site if to == "site" else bh5.read_array)(out)]
    b = C.go(d, inp["path"], out, s)
    with open(out, "rb") as f:
        return [o, f.read(), b.scaling_factor]


def outcome(*a):
    try:
        return ("done", perform(*a))
    except Violation as e:
        return ("error", "Violation", str(e))
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return type(a) is type(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray) and a.dtype.kind in "US":
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, type) or a is None:
        return a is b
    if isinstance(a, (DmapArray, DmapScalar)):
        return type(a) is type(b) and same([a[i] for i in range(len(a))], [b[i] for i in range(len(b))])
    if isinstance(a, (str, bytes, bool, np.bool_)):
        return type(a) is type(b) and a == b
    return type(a) is type(b) and (cmpx.same_array(a, b) if isinstance(a, np.ndarray) else pickle.dumps(a) == pickle.dumps(b))


def show(x):
    return f"{x[1]}: {x[2][:300]}" if x[0] == "error" else f"result {x[1]!r:.300}"


def run(c, ctx):
    def world(tag):
        inputs = []
        for i, d in enumerate(c["sets"]):
            inp = prepare(d, ctx.path(f"in{i}"))
            if "recs" in inp:
                inp["shared"] = [inp["recs"](r, d["how"]) for r in d["recs"]]
            inputs.append(inp)
        return inputs

    def out(tag, t, j):
        # same length of name and same messages for both runs
        os.makedirs(os.path.join(ctx.dir, tag), exist_ok=True)
        return os.path.join(ctx.dir, tag, f"o{t}{j}")

    here = os.getcwd()
    inputs = world("a")
    alone = {}
    for t, ops in enumerate(c["threads"]):
        for j, (i, k, flag) in enumerate(ops):
            alone[t, j] = outcome(c["sets"][i], world("a")[i], k, flag, out("one", t, j))
            ctx.label(c["sets"][i]["kind"], alone[t, j][1][0] if alone[t, j][0] == "done" else alone[t, j][1])
    before = copy.deepcopy([[v for k, v in x.items() if k != "recs"] for x in inputs])
    got = {}

    def body(t):
        def f():
            for j, (i, k, flag) in enumerate(c["threads"][t]):
                got[t, j] = outcome(c["sets"][i], inputs[i], k, flag, out("two", t, j))
        return f
    turns = sched.interleave([body(t) for t in range(len(c["threads"]))], c["runs"], c["opcodes"])
    ctx.trivial = turns.switches == 0
    ctx.label("instructions" if c["opcodes"] else "lines", "hand-overs " + ("0" if not turns.switches else "1-9" if turns.switches < 10 else "10-99" if turns.switches < 100 else "100+"))
    if turns.stalls:
        ctx.label("stalled")
    ctx.sub_evals = len(alone)
    for x in alone:
        if x not in got:
            fail(f"operation {x} did not finish")
        a, b = alone[x], got[x]
        swap = lambda y: y.replace(os.path.join(ctx.dir, "two"), os.path.join(ctx.dir, "one"))
        if b[0] == "error":
            b = (b[0], b[1], swap(b[2]))
        check(a[0] == b[0] and same(a[1:], b[1:]), lambda: f"operation {x[1]} of thread {x[0]}: alone {show(a)}; interleaved {show(b)}")
    check(same(before, [[v for k, v in x.items() if k != "recs"] for x in inputs]), "data shared by the threads was changed")
    check(os.getcwd() == here, "working directory changed")
    for i, d in enumerate(c["sets"]):
        now = ctx.path(f"in{i}")
        check(os.path.exists(now), "input file removed")


SUBS = [Sub("threads", case, run, quick=80, thorough=10000, shards=20), Sub("kin", kin_case, run, quick=60, thorough=6000, shards=20)]
