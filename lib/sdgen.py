"""Generators of SuperDARN records and the accept/refuse oracle."""
from hypothesis import strategies as st
from lib import dgen, refdmap as R, sdformats as F
from lib.harness import fail, check
import numpy as np
import collections
from pydarnio import (SDarnRead, SDarnWrite, superdarn_exceptions as sx)

ARRAYISH = {"ptab", "ltab", "slist", "pwr0", "acfd", "xcfd", "data", "tsc", "tus", "tatten", "tnoise", "toff", "tsze", "tbadtr", "badtr",
            "stid.x", "vector.mlat"}
SMALL = st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=1), st.lists(st.integers(1, 3), min_size=2, max_size=3))


def _value(rng, name, letter, kind):
    """Deterministic pseudo-random value (hypothesis chooses only the seed: records have up to 90 fields)."""
    code = R.CODE[letter]
    if kind == "s":
        if code == R.STRING:
            return ["", "a", "2018/02/01", "Møre", "combf text " * 3][rng.integers(0, 5)]
        if code in dgen.INTS:
            lo, hi = np.iinfo(R.TYPES[code][1]).min, np.iinfo(R.TYPES[code][1]).max
            return [int(lo), int(hi), 0, int(rng.integers(-100, 100)) if lo < 0 else int(rng.integers(0, 100))][rng.integers(0, 4)]
        return float(np.float32([0.0, -0.0, float("nan"), float("inf"), rng.standard_normal() * 100][rng.integers(0, 5)]))
    if name == "slist" and rng.integers(0, 5) == 0:
        return np.zeros([0], R.TYPES[code][1])
    nd = int(rng.integers(1, 4))
    shape = [int(rng.integers(1, 6))] if nd == 1 else [int(x) for x in rng.integers(1, 4, nd)]
    dt = R.TYPES[code][1]
    if code in dgen.INTS:
        i = np.iinfo(dt)
        a = rng.integers(i.min, i.max, size=shape, dtype=dt, endpoint=True)
    else:
        a = rng.standard_normal(shape).astype(dt)
        a.flat[0] = [np.nan, np.inf, 0.0, 1.5][rng.integers(0, 4)]
    return a


OTHER = {"c": "hB", "h": "iHc", "i": "hIf", "f": "dih", "d": "f", "s": "ci", "q": "iQ", "B": "ch", "H": "h", "I": "i", "Q": "q"}


@st.composite
def sdrecord(draw, fmt, full=False):
    """A valid record of the format: random groups present, in random field order."""
    rng = np.random.Generator(np.random.PCG64(draw(st.integers(0, 2**32 - 1))))
    gs = F.groups(fmt)
    names = {}
    for g, d in gs.items():
        if g == F.OPTIONAL:
            names.update({k: v for k, v in d.items() if rng.integers(0, 2)})
        elif full or (g == "types" and draw(st.integers(0, 19)) != 19) or (g != "types" and draw(st.booleans())):
            names.update(d)
    if sum(t != "s" for t in names.values()) < 2 or len(names) < 4:
        names.update(gs["types"])
    rec = []
    for n, t in names.items():
        kind = "s" if t == "s" or (n not in ARRAYISH and rng.integers(0, 10)) else "a"
        rec.append((kind, n, R.CODE[t], _value(rng, n, t, kind)))
    if not any(f[0] == "s" for f in rec):
        f = rec[0]
        rec[0] = ("s", f[1], f[2], _value(rng, f[1], R.FMT[f[2]], "s"))
    if not any(f[0] == "a" for f in rec):
        k = next(i for i, f in reversed(list(enumerate(rec))) if f[2] != R.STRING)
        f = rec[k]
        rec[k] = ("a", f[1], f[2], _value(rng, f[1], R.FMT[f[2]], "a"))
    how = draw(st.sampled_from(["keep", "keep", "shuffle"]))
    if how == "shuffle":
        rec = [rec[i] for i in rng.permutation(len(rec))]
    return rec


EXTRA = st.one_of(dgen.ascii_names, st.sampled_from(["slist ", "Slist", "radar.revision", "time.yr2", "", "x_qflg", "vector.mlat", "ifmode", "mplgexs", "acfd", "data",
                                                          "_", "_x", "__init__", ".", "x.y", "origin.Time", "BMNUM", "0", " ", "slist\n", "#", "user_x", "tmp", "xcfd2"]))


@st.composite
def mutation(draw, fmt):
    k = draw(st.sampled_from(["missing", "missing", "extra", "type", "type", "rename", "partial"]))
    return (k, draw(st.integers(0, 2**31)), draw(EXTRA), draw(st.sampled_from("chifdqBHIQs")))


def mutate(fmt, rec, m):
    kind, seed, name, letter = m
    rng = np.random.Generator(np.random.PCG64(seed))
    rec = list(rec)
    i = int(rng.integers(0, len(rec)))
    f = rec[i]
    if kind == "missing":
        for _ in range(int(rng.integers(1, 4))):
            if len(rec) > 2:
                rec.pop(int(rng.integers(0, len(rec))))
    elif kind == "partial":      # one field of a group the record does not have, or all but one of one it has
        gs = [d for g, d in F.groups(fmt).items() if g != F.OPTIONAL and len(d) > 1]
        d = gs[int(rng.integers(0, len(gs)))]
        have = {f[1] for f in rec}
        n = list(d)[int(rng.integers(0, len(d)))]
        if have & set(d):
            if rng.integers(0, 2):
                rec = [f for f in rec if f[1] not in d or f[1] == n]
            else:
                rec = [f for f in rec if f[1] != n]
        else:
            rec.append(("s", n, R.CODE[d[n]], _value(rng, n, d[n], "s")))
    elif kind == "extra":
        if rng.integers(0, 2):      # a name close to that of a field the record has
            n = f[1]
            name = [n.upper(), n.capitalize(), n + "_", "_" + n, n + " ", n[:-1], n + n[-1], n.replace(".", "_"), n.replace(".", "", 1), n + ".x", n.swapcase()][rng.integers(0, 11)]
        if name not in {f[1] for f in rec}:
            rec.insert(i, ("s", name, R.CODE[letter], _value(rng, name, letter, "s")))
    elif kind == "rename":
        if name not in {f[1] for f in rec}:
            rec[i] = (f[0], name if not (f[0] == "a" and f[3].size == 0) else f[1], f[2], f[3])
    elif kind == "type":
        t = R.FMT[f[2]]
        o = OTHER[t][int(rng.integers(0, len(OTHER[t])))] if rng.integers(0, 2) or (letter == "s" and f[0] == "a") else letter
        if o == "s" and f[0] == "a":
            o = "h"
        rec[i] = (f[0], f[1], R.CODE[o], _value(rng, f[1], o, f[0]))
    # keep one scalar and one array: what every reader needs
    if not any(f[0] == "a" for f in rec):
        k = next((i for i, f in enumerate(rec) if f[2] != R.STRING), None)
        if k is None:
            return None
        f = rec[k]
        rec[k] = ("a", f[1], f[2], np.ones([2], R.TYPES[f[2]][1]))
    if not any(f[0] == "s" for f in rec):
        k = len(rec) - 1
        f = rec[k]
        rec[k] = ("s", f[1], f[2], _value(rng, f[1], R.FMT[f[2]], "s"))
        if not any(f[0] == "a" for f in rec):
            return None
    return rec


@st.composite
def sdfile(draw, max_records=4, muts=True, fmt=None):
    fmt = fmt or draw(st.sampled_from(F.NAMES))
    recs = draw(st.lists(sdrecord(fmt), min_size=1, max_size=max_records))
    applied = []
    if muts:
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2, 3]))):
            i = draw(st.integers(0, len(recs) - 1))
            m = draw(mutation(fmt))
            r = mutate(fmt, recs[i], m)
            if r:
                recs[i] = r
                applied.append((i, m[0]))
    return {"fmt": fmt, "recs": recs, "muts": applied}


def types_of(rec):
    return {f[1]: R.FMT[f[2]] for f in rec}


def judge(fmt, recs):
    """None if every record is acceptable, else (index, missing, extra, wrong) of the first bad record."""
    for i, r in enumerate(recs):
        m, e, w = F.verdict(fmt, types_of(r))
        if m or e or w:
            return i, m, e, w
    return None


ERRS = (sx.SuperDARNFieldMissingError, sx.SuperDARNExtraFieldError, sx.SuperDARNDataFormatTypeError)


def check_error(e, v, what):
    """The error names the offending fields and record of the verdict."""
    i, m, x, w = v
    kinds = {sx.SuperDARNFieldMissingError: (m, "fields"), sx.SuperDARNExtraFieldError: (x, "fields"),
             sx.SuperDARNDataFormatTypeError: (w, "incorrect_params")}
    if type(e) not in kinds:
        fail(f"{what}: {type(e).__name__}: {str(e)[:300]} instead of a field error (missing {sorted(m)} extra {sorted(x)} wrong type {sorted(w)} in record {i})")
    want, attr = kinds[type(e)]
    got = set(getattr(e, attr))
    check(want and got == want, lambda: f"{what}: {type(e).__name__} names {sorted(got)}, want {sorted(want)} (missing {sorted(m)} extra {sorted(x)} wrong {sorted(w)})")
    check(e.record_number == i, lambda: f"{what}: error says record {e.record_number}, first bad record is {i}")
    for n in want:
        check(n in str(e) or repr(n)[1:-1] in str(e), lambda: f"{what}: message does not name {n!r}: {str(e)[:200]}")
    check(str(i) in str(e), lambda: f"{what}: message does not give record {i}")
    return type(e).__name__
