"""Generators of Borealis data and the reference model of the two structures."""
from lib import env  # noqa: F401 (makes hypothesis importable)
from collections import OrderedDict
from datetime import datetime
import hashlib
import os
import random
import numpy as np
from hypothesis import strategies as st
from lib import bspec as S, cmpx
from lib.harness import check, fail, must, Violation

TEXT = ["", "a", "normal scan", "{}", "None", "nan", "0", "False", "twofsound interleaved: 7 beams / 2 freq", "x" * 255, "trailing space "]
RICH = TEXT + ["Møre og Romsdal", "☃ snow", "long " * 30, "x" * 256, "many " * 80, "\u00e9" * 300]
EPOCH = datetime.utcfromtimestamp(0)


def record_name(ts):
    """Name of the record starting at ts (s since epoch): milliseconds since the epoch, as written by the radar."""
    return str(int((datetime.utcfromtimestamp(ts) - EPOCH).total_seconds() * 1000))


SUFFIX = ["", "", ".1", "-8-gabcdef0", ".2-13-g00ff00", "-dirty", ".0"]


@st.composite
def params(draw, versions=S.VERSIONS, fts=S.RESTRUCT, max_rec=4, conv=False, long=False):
    v = draw(st.sampled_from(versions))
    ft = draw(st.sampled_from(fts))
    n = draw(st.integers(1, max_rec))
    # most data is small; sometimes one dimension has a realistic size or more
    wide = draw(st.sampled_from([None] * 9 + ["records", "nseq", "nbeams", "nblank", "nranges", "nlags", "npulses", "nsamps", "nant"]))
    if wide == "records" and max_rec > 2:
        n = draw(st.integers(5, 40))
    small = lambda lo, hi: draw(st.one_of(st.integers(lo, hi).map(lambda x: [x] * n), st.lists(st.integers(lo, hi), min_size=n, max_size=n)))  # noqa: E731
    def per(lo, hi, name, most):
        x = small(lo, hi)
        if wide == "records" and draw(st.booleans()):    # the largest comes last
            x[-1] = hi + draw(st.integers(1, 3))
        if wide == name:
            x[draw(st.integers(0, n - 1))] = draw(st.one_of(st.integers(hi, most), st.just(most)))
        return x
    if long:    # as many records as hours of operation give
        n = draw(st.one_of(st.integers(60, 300), st.sampled_from([64, 100, 101, 128, 129, 200, 255, 256, 257])))
        wide, rng = None, np.random.Generator(np.random.PCG64(draw(st.integers(0, 2**32 - 1))))
        far = max(n - 1 - draw(st.integers(0, 40)), 0)

        def per(lo, hi, name, most):
            x = rng.integers(lo, hi + 1, size=n).tolist() if rng.integers(0, 3) else [int(rng.integers(lo, hi + 1))] * n
            if rng.integers(0, 2):    # the largest comes late
                x[far] = hi + int(rng.integers(1, 4))
            return x
    one = lambda lo, hi, name, most: draw(st.one_of(st.integers(lo, most), st.just(most)) if wide == name else st.integers(lo, hi))  # noqa: E731
    return {"version": v + draw(st.sampled_from(SUFFIX)), "ft": ft, "seed": draw(st.integers(0, 2**32 - 1)), "nseq": per(1, 4, "nseq", draw(st.sampled_from([60, 300])) if wide == "nseq" else 60), "nbeams": per(1, 3, "nbeams", 24),
            "nblank": per(0, 4, "nblank", 300), "nranges": one(1, 4, "nranges", 400), "nlags": one(2 if conv else 1, 3, "nlags", 40), "npulses": one(1, 4, "npulses", 16),
            "nsamps": one(1, 5, "nsamps", 20000 if conv and n < 3 else 400), "nant": draw(st.integers(1, 20 if wide == "nant" and ft in (S.A, S.D) else 3)), "ntx": draw(st.integers(1, 4)),
            "ppo": draw(st.sampled_from(["full", "full", "empty"])), "text": draw(st.sampled_from(["plain", "rich", "rich", "near"])),
            "step": draw(st.sampled_from([3500000, 60000000, 1000000, 3499987])), "special": draw(st.booleans())}


def conv_params(fts=("rawacf", "bfiq"), nonfinite=(), **kw):
    """Parameters of data that SuperDARN formats can represent; the file types in nonfinite may hold samples that are not finite."""
    @st.composite
    def make(draw):
        p = draw(params(fts=fts, conv=True, **kw))
        p["nonfinite"] = p["special"] and p["ft"] in nonfinite
        p["conv"], p["special"] = True, False
        p["ntx"] = draw(st.sampled_from([1, 2, 8, 15, 16, 16]))
        p["spacing"] = draw(st.integers(1, 12))
        n = len(p["nseq"])
        p["blank"] = draw(st.lists(st.sampled_from(["plain", "double"]), min_size=min(n, 50), max_size=min(n, 50)))
        p["blank"] = (p["blank"] * n)[:n]
        p["big"] = draw(st.sampled_from([0, 0, 1, 3]))
        return p
    return make()


def make_convertible(p, recs, rng):
    """Replace what the conversion formats cannot hold by what they can."""
    lv, fields = S.level(p["version"]), S.site_fields(p["version"], p["ft"])
    pick = lambda *a: a[rng.integers(0, len(a))]  # noqa: E731
    more = np.random.Generator(np.random.PCG64([p["seed"], 7]))
    also = lambda n: more.integers(0, n) == 0  # noqa: E731
    pulses = np.cumsum(rng.integers(1, 9, size=p["npulses"])).astype(np.uint32) - np.uint32(rng.integers(0, 2))
    txpl = int(pick(1, 100, 300, 300, 7))
    if also(6):     # far apart
        pulses = pulses * np.uint32(more.integers(100, 250))
    if also(6) and p["spacing"] > 1:
        txpl, p = 1, dict(p, spacing=int(more.integers(1000, 32000)))
    extra = int(rng.integers(0, txpl)) if rng.integers(0, 2) else 0  # tau need not be a multiple of the pulse length
    f32 = lambda x: np.float32(x)  # noqa: E731
    station = list(S.STID)[rng.integers(0, len(S.STID))]
    one = {"pulses": pulses, "tau_spacing": np.uint32(txpl * p["spacing"] + extra), "tx_pulse_len": np.uint32(txpl), "freq": np.uint32(rng.integers(0, 32768)),
           "experiment_id": fields["experiment_id"][1](rng.integers(-32768, 32768)), "lags": rng.integers(0, 30000, size=(p["nlags"], 2)).astype(np.uint32),
           "first_range": f32(pick(180.0, 45.0, 0.0, rng.uniform(0, 3000))), "range_sep": f32(pick(45.0, 15.0, rng.uniform(0.6, 300))),
           "first_range_rtt": f32(pick(1200.8, 0.0, rng.uniform(0, 30000))), "rx_sample_rate": np.float64(pick(3333.0 + 1 / 3, 1e4, 1e5, rng.uniform(31, 1e6))),
           "data_normalization_factor": np.float64(pick(1.0, 0.5, 2.5e5, 1e3, rng.uniform(0.1, 1e6))), "station": station, "slice_id": np.uint32(rng.integers(0, 40))}
    if also(4):
        one["rx_sample_rate"] = np.float64([1000.5, 999.6, 400.3, 3333.4999][more.integers(0, 4)])
    if also(4):      # the same lag twice
        one["lags"][-1] = one["lags"][0]
    if p["ft"] == S.B:
        one["antenna_arrays_order"] = rng.permutation(np.array(["main", "intf", "third"], fields["antenna_arrays_order"][1]))[:p["nant"]]
    for i, r in enumerate(recs.values()):
        for k, x in one.items():
            if k in r:
                r[k] = x
        base = pulses * np.uint32(p["spacing"])
        # with pulses next to each other a sample would be blanked twice
        double = lv >= 6 and p["blank"][i] == "double" and (p["spacing"] > 1 or len(pulses) < 2 or int(np.diff(pulses).min()) > 1)
        r["blanked_samples"] = np.sort(np.concatenate([base, base + np.uint32(1)])) if double else base
        if also(4) and len(r["sqn_timestamps"]) > 1:
            r["sqn_timestamps"][-1] = r["sqn_timestamps"][-2]
        if also(4):
            at = [-1, 0, int(more.integers(0, len(r["noise_at_freq"])))][more.integers(0, 3)]
            r["noise_at_freq"][at] = [np.nan, np.nan, np.inf, -1.0, -0.0, 1e30][more.integers(0, 6)]
        r["int_time"] = f32(pick(3.0, 2.9, 59.999, rng.uniform(0, 100)))
        r["beam_nums"] = rng.integers(0, 32768, size=len(r["beam_nums"])).astype(np.uint32) if rng.integers(0, 3) == 0 else r["beam_nums"] % np.uint32(16)
        if "pulse_phase_offset" in r:
            r["pulse_phase_offset"] = np.zeros_like(r["pulse_phase_offset"])
        for k in ("agc_status_word", "lp_status_word"):
            if k in r:
                r[k] = np.uint32(pick(0, 1, 0x7fff, 0x8000, 0xffff, int(rng.integers(0, 65536))))
        if "tx_antenna_phases" in r:
            ph = np.exp(1j * rng.uniform(0, 6.28, p["ntx"])).astype(np.complex64)
            ph[rng.integers(0, 2, p["ntx"]) == 0] = 0
            if rng.integers(0, 4) == 0:
                ph[:] = pick(0, 1, 1j, -1, 0.5 - 0.5j)
            if also(4):
                ph[more.integers(0, p["ntx"])] = [1e-7, 1e-30j, -1e-40, 1e-3 + 1e-3j][more.integers(0, 4)]
            r["tx_antenna_phases"] = ph
        for k in S.BULK[p["ft"]]:
            a = r[k]
            amp = 10.0 ** rng.uniform(-2, 2, a.shape)
            x = (rng.standard_normal(a.shape) * amp + 1j * rng.standard_normal(a.shape) * amp) * 10.0 ** p["big"]
            if p["ft"] == S.B:
                x = x * float(one["data_normalization_factor"]) / 10 ** rng.uniform(0, 4)
            x = x.astype(np.complex64)
            flat = x.reshape(-1)
            if flat.size and rng.integers(0, 2):
                flat[rng.integers(0, flat.size)] = pick(0, 1j, -1, flat[0].conjugate())
            if flat.size and p.get("nonfinite"):
                for _ in range(2):
                    flat[rng.integers(0, flat.size)] = complex(np.nan, np.nan) if p["nonfinite"] == "nan" else complex(pick(np.nan, np.inf, -np.inf, 1e30, 0), pick(np.nan, 0, -np.inf, 1, -1e30))
            r[k] = x


def floats(rng, shape, dt, special):
    a = rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 6)
    if np.issubdtype(dt, np.complexfloating):
        a = a + 1j * rng.standard_normal(shape)
    a = np.asarray(a).astype(dt)
    if special and a.size:
        flat = a.reshape(-1)
        for _ in range(2):
            flat[rng.integers(0, flat.size)] = [np.nan, np.inf, -np.inf, -0.0, -1, 0][rng.integers(0, 6)]
    return a


def uints(rng, shape, dt=np.uint32):
    i = np.iinfo(dt)
    if rng.integers(0, 4) == 0:
        return rng.integers(i.min, i.max, size=shape, dtype=dt, endpoint=True)
    return rng.integers(0, 100, size=shape).astype(dt)


# texts that are hard to tell apart
NEAR = ["\ufeffa text", "a text\r\n", "a text\r", "\u00e9 text", "e\u0301 text", "a\xa0text", "a text\u2028", "A\u200b text", "a text",  "a text ", " a text", "a  text", "A text", "a text\n", "a tex", "a text.", "b'a text'"]


def build(p):
    """Ordered mapping record name -> record (a plain dict in random field order)."""
    rng = np.random.Generator(np.random.PCG64(p["seed"]))
    v, ft, lv = p["version"], p["ft"], S.level(p["version"])
    fields = S.site_fields(v, ft)
    texts = RICH if p["text"] == "rich" else NEAR if p["text"] == "near" else TEXT
    pick = lambda: texts[rng.integers(0, len(texts))]  # noqa: E731
    sp = p["special"]
    sh = {}
    for k in sorted(fields):
        kind, t = fields[k]
        if k == "borealis_git_hash":
            sh[k] = v
        elif k == "station":
            sh[k] = ["sas", "cly", "ekb", "tst", "gbr"][rng.integers(0, 5)]
        elif k == "antenna_arrays_order":
            names = ["main", "intf", "third"] if ft == S.B else [f"antenna_{i}" for i in range(p["nant"])]
            sh[k] = np.array(names[:p["nant"]], dtype=t)
        elif k == "pulses":
            sh[k] = np.cumsum(rng.integers(0 if rng.integers(0, 2) else 1, 9, size=p["npulses"])).astype(np.uint32)
        elif k == "lags":
            sh[k] = uints(rng, (p["nlags"], 2))
        elif k == "blanked_samples":
            sh[k] = uints(rng, (p["nblank"][0],))
        elif k == "pulse_phase_offset":
            sh[k] = floats(rng, (p["npulses"] if p["ppo"] == "full" else 0,), np.float32, sp)
        elif k == "num_ranges":
            sh[k] = t(p["nranges"])
        elif k == "num_samps":
            sh[k] = t(p["nsamps"])
        elif kind == "a":
            sh[k] = scalar(rng, t, pick, sp)
    us = int(rng.integers(1_000_000_000_000, 1_900_000_000_000)) * 1000
    if rng.integers(0, 2):
        us += int(rng.integers(0, 1000))
    if rng.integers(0, 6) == 0:     # at the edge of a second, minute, day, month or year
        t = datetime.utcfromtimestamp(us // 1_000_000)
        t = [t, t.replace(second=0), t.replace(hour=0, minute=0, second=0), t.replace(day=1, hour=0, minute=0, second=0), t.replace(month=1, day=1, hour=0, minute=0, second=0),
             t.replace(year=2024, month=3, day=1, hour=0, minute=0, second=0)][rng.integers(0, 6)]
        us = round((t - EPOCH).total_seconds()) * 1_000_000 + [0, -1, 1, -1000, 999, 999_999][rng.integers(0, 6)]
    recs = OrderedDict()
    for i in range(len(p["nseq"])):
        nseq, nb = p["nseq"][i], p["nbeams"][i]
        r = dict(sh)
        times = [us]
        for _ in range(nseq - 1):
            times.append(times[-1] + int(rng.integers(50_000, 150_000)))
        r["sqn_timestamps"] = np.array([t / 1e6 for t in times], np.float64)
        us = times[-1] + p["step"]
        for k in sorted(S.unshared(v, ft) & set(fields)):
            kind, t = fields[k]
            if kind == "a":
                r[k] = scalar(rng, t, pick, sp)
        r["num_sequences"] = np.int64(nseq)
        if "noise_at_freq" in fields:
            r["noise_at_freq"] = floats(rng, nseq, np.float64, sp)
        if "beam_nums" in fields:
            r["beam_nums"] = uints(rng, nb) if rng.integers(0, 3) == 0 else rng.permutation(max(16, nb))[:nb].astype(np.uint32)
            r["beam_azms"] = floats(rng, nb, np.float64, sp)
        if "blanked_samples" in fields and lv >= 5:
            r["blanked_samples"] = uints(rng, (p["nblank"][i],))
        if "pulse_phase_offset" in fields and lv >= 6:
            r["pulse_phase_offset"] = floats(rng, (nseq, p["npulses"]) if p["ppo"] == "full" else (0,), np.float32, sp)
        if "tx_antenna_phases" in fields:
            ph = floats(rng, p["ntx"], np.complex64, sp)
            ph[rng.integers(0, 2, p["ntx"]) == 0] = 0
            r["tx_antenna_phases"] = ph
        dims = {S.C: (nb, p["nranges"], p["nlags"]), S.B: (p["nant"], nseq, nb, p["nsamps"]),
                S.A: (p["nant"], nseq, p["nsamps"]), S.D: (nseq, p["nant"], p["nsamps"])}[ft]
        for k in S.BULK[ft]:
            a = floats(rng, dims, np.complex64, sp)
            r[k] = a.reshape(-1) if S.flattened(v, ft) else a
        r[S.dims_field(v, ft)] = np.array(dims, np.uint32)
        r[S.desc_field(v, ft)] = S.descriptors(v, ft, "site")
        if set(r) != set(fields):
            raise RuntimeError(f"generator and table disagree: {set(r) ^ set(fields)}")
        order = list(r)
        rng.shuffle(order)
        recs[record_name(r["sqn_timestamps"][0])] = {k: r[k] for k in order}
    if p.get("conv"):
        make_convertible(p, recs, rng)
    return recs


def scalar(rng, t, pick, sp):
    if t is str:
        return pick()
    if t is np.bool_:
        return np.bool_(rng.integers(0, 2))
    if issubclass(t, np.integer):
        i = np.iinfo(t)
        return t([0, 1, i.max, i.min, int(rng.integers(0, 100))][rng.integers(0, 5)])
    x = rng.standard_normal() * 10.0 ** rng.integers(-3, 6)
    if sp and rng.integers(0, 6) == 0:
        x = [np.nan, np.inf, -0.0][rng.integers(0, 3)]
    return t(x)


PAD = {"i": -1, "u": 0, "f": np.nan, "c": np.nan}


def to_arrays(version, ft, records):
    """The reference model of the array structure."""
    recs = list(records.values())
    n = len(recs)
    fields = S.array_fields(version, ft)
    un = S.unshared(version, ft)
    out = {}
    for k, (kind, t) in fields.items():
        if k == S.desc_field(version, ft):
            out[k] = S.descriptors(version, ft, "array")
        elif k == "num_beams":
            out[k] = np.array([len(r["beam_nums"]) for r in recs], np.uint32)
        elif k == "num_blanked_samples":
            out[k] = np.array([len(r["blanked_samples"]) for r in recs], np.uint32)
        elif k not in un:
            out[k] = recs[0][k]
        elif t is str:
            out[k] = np.array([r[k] for r in recs], dtype=np.str_)
        else:
            vals = [np.asarray(r[k]) for r in recs]
            if k in S.BULK[ft]:
                vals = [x.reshape(tuple(r[S.dims_field(version, ft)])) for x, r in zip(vals, recs)]
            shape = [n] + [max(x.shape[d] for x in vals) for d in range(vals[0].ndim)]
            a = np.full(shape, PAD.get(np.dtype(t).kind, 0), dtype=t)
            for i, x in enumerate(vals):
                a[(i,) + tuple(slice(0, s) for s in x.shape)] = x
            out[k] = a
    return out


def same(a, b):
    """Exact equality; text arrays compare by content (the width of their dtype is storage)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind == b.dtype.kind and a.dtype.kind in "US":
        return a.shape == b.shape and a.tolist() == b.tolist()
    return cmpx.same_value(a, b)


def diff(got, want, what):
    if set(got) != set(want):
        return f"{what}: missing {sorted(map(str, set(want) - set(got)))[:8]} extra {sorted(map(str, set(got) - set(want)))[:8]}"
    for k in want:
        if not same(got[k], want[k]):
            return f"{what}[{k!r}]: got {cmpx.describe(got[k])}, want {cmpx.describe(want[k])}"
    return None


def diff_records(got, want, what, order=True):
    if (list(got) if order else sorted(got)) != (list(want) if order else sorted(want)):
        return f"{what}: record names {list(got)} != {list(want)}"
    for k in want:
        d = diff(got[k], want[k], f"{what}[{k}]")
        if d:
            return d
    return None


def expect(d):
    if d:
        fail(d)


def snapshot(x):
    """A deep copy that shares nothing with x (arrays keep their layout where possible)."""
    if isinstance(x, dict):
        return type(x)((k, snapshot(v)) for k, v in x.items()) if isinstance(x, OrderedDict) else {k: snapshot(v) for k, v in x.items()}
    return x.copy() if isinstance(x, np.ndarray) else x


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


COMPRESSION = [None, "gzip", "lzf", "zlib"]
COMP = st.sampled_from(["default", None, "gzip", "lzf", "zlib", 4])


def given(recs, seed):
    """The records as a caller may give them: in any order (seed 0: in time order)."""
    names = list(recs)
    if seed:
        random.Random(seed).shuffle(names)
    return OrderedDict((k, recs[k]) for k in names)


def relaid(recs, seed):
    """The records or arrays, their numbers in other memory layouts (seed 0: as they are)."""
    if not seed:
        return recs
    rng = np.random.Generator(np.random.PCG64([seed, 11]))
    one = lambda x: OrderedDict((k, weird_layout(v, rng) if isinstance(v, np.ndarray) and v.dtype.kind not in "US" else relaid(v, seed) if isinstance(v, dict) else v) for k, v in x.items())  # noqa: E731
    return one(recs)


def writer(path, data, ft, structure, comp="default", direct=False):
    """Write through BorealisWrite (structure 'site', 'array' or None) or directly through the class of the structure."""
    from pydarnio import BorealisWrite
    from pydarnio.borealis.borealis_site import BorealisSiteWrite
    from pydarnio.borealis.borealis_array import BorealisArrayWrite
    kw = {} if comp == "default" else {"hdf5_compression": comp}
    if direct:
        return (BorealisSiteWrite if structure == "site" else BorealisArrayWrite)(path, data, ft, **kw)
    return BorealisWrite(path, data, ft, structure, **kw)


def reader(path, ft, structure=None, direct=False):
    from pydarnio import BorealisRead
    from pydarnio.borealis.borealis_site import BorealisSiteRead
    from pydarnio.borealis.borealis_array import BorealisArrayRead
    if direct:
        return (BorealisSiteRead if structure == "site" else BorealisArrayRead)(path, ft)
    return BorealisRead(path, ft, structure)


def weird_layout(x, rng):
    """The same array in another memory layout (strided, Fortran order, big endian text)."""
    if not isinstance(x, np.ndarray) or x.size == 0:
        return x
    if x.dtype.kind in "US" and rng.integers(0, 3) == 0:    # wider than the texts need
        x = x.astype((x.dtype.type, x.dtype.itemsize // (4 if x.dtype.kind == "U" else 1) * int(rng.integers(2, 4))))
    k = rng.integers(0, 4)
    if k == 0:
        big = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
        v = big[tuple(slice(0, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if k == 1 and x.ndim > 1:
        return np.asfortranarray(x)
    if k == 2 and x.dtype.kind == "U":
        return x.astype(x.dtype.newbyteorder(">"))
    if k == 3:
        return x[::-1].copy()[::-1]
    return x


def classes(p, ctx):
    ctx.label(p["ft"], "v0.%d" % S.level(p["version"]) if S.level(p["version"]) > 4 else "v0.2-4",
              "records=%s" % ("1" if len(p["nseq"]) == 1 else "2+"))
    if len(set(p["nseq"])) > 1 or len(set(p["nbeams"])) > 1 or len(set(p["nblank"])) > 1:
        ctx.label("ragged")
    if max(p["nseq"] + p["nblank"] + [len(p["nseq"]), p["nranges"], p["nsamps"], p["nlags"], p["nant"]]) > 5 or max(p["nbeams"]) > 3:
        ctx.label("large")
