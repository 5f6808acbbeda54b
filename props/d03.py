"""Histories of writing and reading on several writers over shared records."""
from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail
from lib import dgen, refdmap as R, cmpx
import copy, os
import numpy as np
from pydarnio import DmapRead, DmapWrite, DmapArray, DmapScalar

RULE = ("random histories of 2-14 operations (new writer, file write with or without a name, stream write, stream write of other "
        "records, failing write, reading) on up to 4 writers sharing 1-3 record lists, checked after every step against a model "
        "that knows for each writer only its records; non-trivial: at least two writes in the history")


@st.composite
def case(draw):
    pools = draw(st.lists(st.lists(dgen.record(max_scalars=3, max_arrays=3), min_size=1, max_size=3), min_size=1, max_size=3))
    pres = [{"typed": draw(st.booleans()), "how": draw(st.lists(st.sampled_from(dgen.LAYOUTS), min_size=1, max_size=3))} for _ in pools]
    op = st.one_of(
        st.tuples(st.just("new"), st.integers(0, 2), st.sampled_from(["", "a", "b"])),
        st.tuples(st.just("file"), st.integers(0, 3), st.sampled_from(["", "a", "b", "c"])),
        st.tuples(st.just("stream"), st.integers(0, 3)),
        st.tuples(st.just("stream_of"), st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just("bad"), st.integers(0, 2), st.integers(-3, 3)),
        st.tuples(st.just("read"), st.sampled_from(["a", "b", "c"]), st.booleans()))
    ops = draw(st.lists(op, min_size=2, max_size=14))
    return {"pools": pools, "pres": pres, "ops": [("new", 0, draw(st.sampled_from(["", "a"])))] + ops}


def snap(src):
    return copy.deepcopy(src), [{k: (id(v), id(v.value) if isinstance(v, DmapArray) else None) for k, v in r.items()} for r in src]


def unchanged(src, s, what):
    old, ids = s
    check(len(src) == len(old), f"{what}: number of the caller's records changed")
    for i, (a, b) in enumerate(zip(src, old)):
        check(list(a) == list(b), lambda: f"{what}: caller's record {i} fields changed to {list(a)}")
        for k in b:
            x, y = a[k], b[k]
            check(type(x) is type(y), lambda: f"{what}: caller's value {k!r} of record {i} changed type")
            if isinstance(x, tuple):
                check(x[0] == y[0] and x[2:] == y[2:], lambda: f"{what}: caller's entry {k!r} of record {i} changed from {y!r:.200} to {x!r:.200}")
                x, y = x.value, y.value
            if isinstance(x, np.ndarray):
                check(x.flags.writeable == y.flags.writeable or True, "")
            check(cmpx.same_value(x, y), lambda: f"{what}: caller's value {k!r} of record {i} changed to {cmpx.describe(x)} from {cmpx.describe(y)}")


def run(c, ctx):
    pools = [[(dgen.present_dmap if p["typed"] else dgen.present_dict)(r, p["how"]) for r in recs] for recs, p in zip(c["pools"], c["pres"])]
    snaps = [snap(p) for p in pools]
    want = [R.encode(r) for r in c["pools"]]
    writers = []      # [writer, expected bytes, filename]
    streams = []      # (object, bytes expected)
    files = {}
    reads = []
    nw = 0

    def path(n):
        return os.path.join(ctx.dir, n)
    for op in c["ops"]:
        what = f"after {op}"
        if op[0] == "new":
            if len(writers) >= 4:
                continue
            k = op[1] % len(pools)
            with must("making a writer"):
                w = DmapWrite(pools[k], path(op[2]) if op[2] else "")
            writers.append([w, k, op[2]])
        elif op[0] == "file":
            w = writers[op[1] % len(writers)]
            if w[1] is None or not op[2] and not w[2]:
                continue
            with must("file write"):
                if op[2]:
                    w[0].write_dmap(path(op[2]))
                    w[2] = op[2]
                else:
                    w[0].write_dmap()
            files[w[2]] = want[w[1]]
            nw += 1
        elif op[0] in ("stream", "stream_of"):
            w = writers[op[1] % len(writers)]
            if op[0] == "stream" and w[1] is None:
                continue
            with must("stream write"):
                if op[0] == "stream_of":
                    w[1] = op[2] % len(pools)
                    b = w[0].write_dmap_stream(pools[w[1]])
                else:
                    b = w[0].write_dmap_stream()
            streams.append((b, want[w[1]]))
            nw += 1
        elif op[0] == "bad":
            k = op[1] % len(pools)
            ctx.label("failing-write")
            typed = c["pres"][k]["typed"]
            if op[2] == 3:      # typed, but with a value that has no place in its type
                typed, wrong = True, pools[k][:1] + [{"x": DmapScalar("x", 1 << 40, 2, "h")}] if c["pres"][k]["typed"] else [{"x": DmapScalar("x", 1 << 40, 2, "h")}]
            else:
                wrong = pools[k] + [{"x": 5 if typed else 1 << 40}]
            try:
                if op[2] > 0:    # of an existing writer, which then has to be told what to write
                    w = writers[op[2] % len(writers)]
                    w[1] = None
                    ctx.label("failing-write-then-on")
                    w[0].write_dmap_stream(wrong)
                else:
                    DmapWrite(wrong).write_dmap_stream()
                fail("untyped entry written" if typed else "out-of-range value written")
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
        elif op[0] == "read":
            if op[1] not in files:
                continue
            data = files[op[1]]
            k = want.index(data)
            ctx.label("read")
            with must("reading"):
                if op[2]:
                    buf = bytearray(data)
                    a, b = DmapRead(buf, True), DmapRead(buf, True)
                else:
                    a, b = DmapRead(path(op[1])), DmapRead(path(op[1]))
                ra, rb = list(a.read_records()), list(b.read_records())
                # results of one reader do not move when another's are changed
                for r in ra:
                    for key, v in r.items():
                        if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
                            v[...] = v.ravel()[::-1].reshape(v.shape) if v.size > 1 else 0
            if op[2]:
                check(bytes(buf) == data, "changing records read from a stream changed the caller's bytes")
            for i, r in enumerate(c["pools"][k]):
                m = dgen.diff_plain(rb[i], r, f"record {i} of the second reader")
                if m:
                    fail(m)
        for n, b in files.items():
            got = open(path(n), "rb").read()
            check(got == b, lambda: f"{what}: file {n} holds {len(got)} bytes, not the {len(b)} of its records"
                  + (" (same length)" if len(got) == len(b) else ""))
        for i, (s, b) in enumerate(streams):
            check(bytes(s) == b, lambda: f"{what}: stream result {i} is not the bytes of its records ({len(s)} vs {len(b)} bytes)")
        for p, s in zip(pools, snaps):
            unchanged(p, s, what)
    left = set(os.listdir(ctx.dir)) - set(files)
    check(not left, lambda: f"unexpected files {left}")
    ctx.trivial = nw < 2
    ctx.label(f"writes={min(nw, 6)}", f"writers={len(writers)}")


SUBS = [Sub("history", case, run, 900, 16000)]
