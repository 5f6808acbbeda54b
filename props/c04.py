from hypothesis import strategies as st
from lib.harness import Sub, must, check, refuses
from lib import bgen as G, bspec as S, convcheck as C
from pydarnio import BorealisConvert, borealis_exceptions as bx
import numpy as np
import os

RULE = ("representable data with 0-2 alterations of blanked samples, phase offsets (any record) or the station, data of unconvertible types, old data without slice id; stored site or "
        "array structured; trivial when nothing was altered")
ASSUMPTIONS = ["blanked samples are judged as sets; orders and repetitions are not generated, nor adjacent pulses with a spacing of one sample"]


@st.composite
def case(draw, **kw):
    c = draw(C.case(**kw))
    n = len(c["p"]["nseq"])
    k = 0 if draw(st.integers(0, 3)) == 0 else 1
    c["alter"] = draw(st.lists(st.tuples(st.sampled_from(["drop", "add", "shift", "empty", "next", "half", "other", "ppo", "ppo", "pair", "nan", "-0", "station", "move", "move", "off1"]), st.integers(0, n - 1), st.integers(0, 99)),
                               min_size=k, max_size=2))
    return c


def move(b, sel):
    """The same number of samples, one of them elsewhere."""
    free = np.setdiff1d(np.arange(int(b.max()) if b.size and b.max() < 2000 else 0), b)
    if not b.size or not free.size:
        return b
    b = b.copy()
    b[sel % b.size] = free[sel % free.size]
    return b


def alter(c, recs):
    p = c["p"]
    v, ft, lv = p["version"], p["ft"], S.level(p["version"])
    names = list(recs)
    shared = S.shared(v, ft)
    for kind, i, sel in c["alter"]:
        r = recs[names[i]]
        if kind == "station":       # it is the same in all records
            for x in recs.values():
                x["station"] = ["zzz", "SAS", "", "sa", "sas ", "borealis", "0", "65", "None"][sel % 9]
            continue
        if kind in ("ppo", "pair", "nan", "-0"):
            if ft != S.B:
                continue
            ppo = r["pulse_phase_offset"].copy()
            if ppo.size == 0:
                continue
            if kind == "pair":      # phases that cancel
                ppo.reshape(-1)[-1] = -[90.0, 180.0, 1e-3][sel % 3]
            ppo.reshape(-1)[sel % ppo.size] = {"pair": [90.0, 180.0, 1e-3][sel % 3], "ppo": [1.0, 180.0, 1e-30, -90.0, 360.0][sel % 5], "nan": np.nan, "-0": -0.0}[kind]
            field, val = "pulse_phase_offset", ppo
        else:
            b = r["blanked_samples"]
            pulses = r["pulses"] * np.uint32(int(r["tau_spacing"]) // int(r["tx_pulse_len"]))
            new = {"drop": lambda: np.delete(b, sel % b.size) if b.size else b, "add": lambda: np.append(b, np.uint32(b.max() + 2 + sel)) if b.size else b,
                   "shift": lambda: b + np.uint32(sel + 2), "empty": lambda: b[:0], "next": lambda: pulses + np.uint32(1),
                   "move": lambda: move(b, sel), "off1": lambda: np.where(np.arange(b.size) == sel % max(1, b.size), b + np.uint32(1), b),
                   "half": lambda: np.sort(np.append(pulses, pulses[sel % pulses.size] + np.uint32(1))),
                   "other": lambda: np.sort(np.concatenate([pulses, pulses + np.uint32(1)]))}[kind]()
            field, val = "blanked_samples", np.unique(new).astype(np.uint32)
        for x in recs.values() if field in shared and c["store"] == "array" else [r]:
            x[field] = val


def convertible(c, recs):
    p = c["p"]
    lv = S.level(p["version"])
    for r in recs.values():
        if r["station"] not in S.STID:
            return False
        base = set((r["pulses"].astype(np.int64) * (int(r["tau_spacing"]) // int(r["tx_pulse_len"]))).tolist())
        b = set(r["blanked_samples"].tolist())
        if b != base and not (lv >= 6 and b == base | {x + 1 for x in base}):
            return False
        if p["ft"] == S.B and any(not x == 0 for x in np.asarray(r["pulse_phase_offset"]).reshape(-1).tolist()):
            return False
    return True


def run(c, ctx):
    p = c["p"]
    ft = p["ft"]
    if p["spacing"] == 1:
        p = c["p"] = dict(p, spacing=2)
    G.classes(p, ctx)
    recs = G.build(p)
    alter(c, recs)
    src, out = ctx.path("in"), ctx.path("out")
    s = C.store(c, src, recs)
    ctx.trivial = not c["alter"]
    if convertible(c, recs):
        ctx.label("convertible" if not c["alter"] else "convertible after alterations")
        with must("converting representable data"):
            C.go(c, src, out, s)
        check(os.path.exists(out), "no output file")
        return
    ctx.label("refused", "refused " + s)
    refuses("data SuperDARN formats cannot represent", bx.BorealisConvert2IqdatError if ft == S.B else bx.BorealisConvert2RawacfError, lambda: C.go(c, src, out, s))
    check(not os.path.exists(out), "a refused conversion left a file")


@st.composite
def tcase(draw):
    kind = draw(st.sampled_from(["type", "slice"]))
    if kind == "type":
        p = draw(G.params(fts=("antennas_iq", "rawrf"), max_rec=3))
        store = "site" if p["ft"] == "rawrf" else draw(st.sampled_from(["site", "array"]))
    else:
        p = draw(G.conv_params(max_rec=3))
        store = draw(st.sampled_from(["site", "array"]))
    return {"kind": kind, "p": p, "store": store, "by": "radar", "stated": draw(st.booleans()), "sf": 1}


def types(c, ctx):
    p = c["p"]
    lv = S.level(p["version"])
    recs = G.build(p)
    src, out = ctx.path("in"), ctx.path("out")
    s = C.store(c, src, recs)
    structure = s if c["stated"] else None
    ctx.label(c["kind"], p["ft"], f"level {lv}")
    if c["kind"] == "type":
        refuses(f"conversion of {p['ft']}", bx.BorealisConversionTypesError, lambda: BorealisConvert(src, p["ft"], out, borealis_slice_id=1, borealis_file_structure=structure))
        check(not os.path.exists(out), "a refused conversion left a file")
    elif lv < 5:
        refuses("old data without slice id", bx.BorealisStructureError, lambda: BorealisConvert(src, p["ft"], out, borealis_file_structure=structure))
        check(not os.path.exists(out), "a refused conversion left a file")
        with must("converting old data with a slice id"):
            BorealisConvert(src, p["ft"], out, 0, structure)
    else:
        with must("converting new data without a slice id"):
            BorealisConvert(src, p["ft"], out, borealis_file_structure=structure)


SUBS = [Sub("gate", case, run, quick=700, thorough=20000), Sub("types", tcase, types, quick=200, thorough=5000), Sub("long", lambda: case(long=True), run, quick=6, thorough=300)]
