from hypothesis import strategies as st
from lib.harness import Sub, must, check, fail, refuses
from lib import bgen as G, bspec as S, bh5
from pydarnio import borealis_exceptions as bx
from pydarnio.borealis.borealis_utilities import BorealisUtilities
import numpy as np
import os

RULE = ("valid generated records (accepted) or records with 1-3 corruptions (removed, extra, wrongly typed fields in any subset of records), written "
        "by pyDARNio, read from a file written independently, or given to the record check; trivial when nothing is corrupted")
ASSUMPTIONS = ["a first record without its borealis_git_hash and a record with none of its fields are structure errors",
               "an integer pulse_phase_offset is the repaired legacy form when reading"]
OTHER = [np.float32(1.5), np.float64(2.5), np.int16(3), np.int64(4), np.uint8(5), np.uint32(6), np.bool_(True), "text"]
PYTHON = [7, 8.5, None, True, [1, 2], b"raw", np.str_("x")]
DTYPES = [np.float32, np.float64, np.int16, np.int64, np.uint8, np.uint32, np.complex64, np.complex128, np.str_, np.bytes_]


@st.composite
def case(draw, long=False):
    p = draw(G.params(fts=S.FT, max_rec=4, long=long))
    fields = S.site_fields(p["version"], p["ft"])
    names = sorted(fields)
    n = len(p["nseq"])
    bad = {}
    via = draw(st.sampled_from(["write", "check", "check", "check"] if long else ["write", "write", "read", "check"]))
    if long:    # one, some, most or all records are bad
        where = draw(st.one_of(st.sets(st.integers(0, n - 1), min_size=1, max_size=2), st.sets(st.integers(0, n - 1), min_size=3, max_size=20), st.just(set(range(n)))))
        kinds = draw(st.lists(faults(names, fields), min_size=1, max_size=3))
        return {"p": p, "bad": {i: kinds[j % len(kinds)] for j, i in enumerate(sorted(where))}, "via": via, "structure": draw(st.sampled_from(["site", None]))}
    for i in (sorted(draw(st.sets(st.integers(0, n - 1), min_size=0 if draw(st.integers(0, 4)) == 0 else 1)))):
        bad[i] = draw(faults(names, fields))
    return {"p": p, "bad": bad, "via": via, "structure": draw(st.sampled_from(["site", None]))}


@st.composite
def faults(draw, names, fields):
    ops = []
    for kind in draw(st.lists(st.sampled_from(["missing", "extra", "type"]), min_size=1, max_size=1 if draw(st.integers(0, 2)) else 3)):
        if kind == "missing" and draw(st.integers(0, 5)) == 0:     # every field of one kind
            which = draw(st.sampled_from(["a", "d"]))
            ops.append((kind, [k for k in names if fields[k][0] == which]))
        elif kind == "missing":
            ops.append((kind, sorted(draw(st.sets(st.sampled_from(names), min_size=1, max_size=3)))))
        elif kind == "extra":
            ops.append((kind, sorted(draw(st.sets(st.sampled_from(["num_beams", "num_blanked_samples", "junk", "Freq", "freq ", "slice_id_2", "rx_freq"]),
                                                  min_size=1, max_size=3)))))
        else:
            for k in sorted(draw(st.sets(st.sampled_from(names), min_size=1, max_size=3))):
                ops.append((kind, (k, draw(st.integers(0, 30)))))
    return ops


def wrong(kind, t, cur, sel, storable):
    """A value of another type than the field requires (None: none of this selection)."""
    if kind == "a":
        pool = OTHER + [np.zeros(1, np.float32), np.array([1, 2], np.int64)] + ([] if storable else PYTHON)
        v = pool[sel % len(pool)]
        return None if type(v) is t else v
    pool = DTYPES + ["scalar", "text"] + ([] if storable else ["list", "python", "none"])
    d = pool[sel % len(pool)]
    if d == "scalar":
        return np.float64(1)
    if d == "list":
        return [1, 2]
    if d == "python":
        return 3
    if d == "none":
        return None
    if d == "text":
        return "abc"
    if np.dtype(d).type is np.dtype(t).type:
        return None
    if d in (np.str_, np.bytes_):
        return np.array(["a"] * max(1, cur.size), d)
    return np.zeros(cur.shape, d)


def corrupt(c):
    """records, {record name: {"missing": set, "extra": set, "type": set}}, first record's hash broken?"""
    p = c["p"]
    recs = G.build(p)
    names = list(recs)
    fields = S.site_fields(p["version"], p["ft"])
    exp = {}
    unknown = False
    for i, ops in c["bad"].items():
        r = recs[names[i]]
        e = {"missing": set(), "extra": set(), "type": set()}
        for kind, arg in ops:
            if kind == "missing":
                for k in arg:
                    r.pop(k, None)
                e["missing"] |= set(arg)
            elif kind == "extra":
                for j, k in enumerate(arg):
                    if k not in fields:
                        r[k] = [np.float32(3), np.zeros(3, np.uint32), "x"][j % 3]
                        e["extra"].add(k)
            else:
                k, sel = arg
                if k in r and (k != "borealis_git_hash" or i > 0):
                    if c["via"] == "read" and k == "pulse_phase_offset":
                        sel = 0 if sel != 0 and np.dtype(DTYPES[sel % len(DTYPES)]) == np.int64 else sel
                    v = wrong(fields[k][0], fields[k][1], r[k] if isinstance(r[k], np.ndarray) else np.zeros(1), sel, c["via"] == "read")
                    if v is None and sel % 3:
                        continue
                    if v is None and (c["via"] == "read" or fields[k][0] == "a" and False):
                        continue
                    if c["via"] == "read" and isinstance(v, np.ndarray) and v.dtype == np.int64 and k == "pulse_phase_offset":
                        continue
                    r[k] = v
                    e["type"].add(k)
        e["type"] -= e["missing"]
        e = {k: v for k, v in e.items() if v}
        if "missing" in e:
            e["type"] = e.get("type", set()) & set(r)
            if not e["type"]:
                del e["type"]
        if e:
            exp[names[i]] = e
    return recs, names, exp


def run(c, ctx):
    p = c["p"]
    ft = p["ft"]
    G.classes(p, ctx)
    recs, names, exp = corrupt(c)
    ctx.trivial = not exp
    ctx.label(c["via"], "valid" if not exp else "+".join(sorted({k for e in exp.values() for k in e})))
    if len(exp) > 1:
        ctx.label("several-bad-records")
    path = ctx.path("a.hdf5")
    hash_gone = "borealis_git_hash" not in recs[names[0]]
    if c["via"] == "check":
        fields = S.site_fields(p["version"], ft)
        at = {k: t for k, (kind, t) in fields.items() if kind == "a"}
        dt = {k: t for k, (kind, t) in fields.items() if kind == "d"}
        act, hash_gone = (lambda: BorealisUtilities.check_records("origin", recs, at, dt)), False
    elif c["via"] == "write":
        act = lambda: G.writer(path, recs, ft, c["structure"])  # noqa: E731
    else:
        bh5.write_site(path, recs)
        act = lambda: G.reader(path, ft, c["structure"])  # noqa: E731
    if not exp:
        with must(f"{c['via']} of valid records"):
            act()
        return
    nothing = any(not set(r) & set(S.site_fields(p["version"], ft)) for r in recs.values())
    if hash_gone or nothing:
        refuses("records without the first record's hash", (bx.BorealisStructureError, bx.BorealisBadRecordsError), act)
    else:
        err = refuses("invalid records", bx.BorealisBadRecordsError, act)
        got = {"missing": err.missing_fields, "extra": err.extra_fields, "type": err.incorrect_fields}
        reported = set().union(*[set(v) for v in got.values()])
        check(reported == set(exp), lambda: f"bad records {sorted(exp)}, reported {sorted(reported)}")
        for kind, d in got.items():
            for name, fs in d.items():
                check(set(fs) == exp[name].get(kind, set()), lambda: f"record {name} {kind}: reported {sorted(fs)}, truth {exp[name]}")
        for name in exp:
            check(str(name) in str(err), lambda: f"message does not name record {name}: {err}")
            for kind in got:
                for f in got[kind].get(name, ()):
                    check(f in str(err), lambda: f"message does not name field {f}: {err}")
        if len(exp) == 1:
            ctx.label("one-bad-record")
    if c["via"] == "write":
        check(not os.path.exists(path), "a refused write left a file")


@st.composite
def swcase(draw):
    return {"p": draw(G.params(fts=S.FT, max_rec=2)), "via": draw(st.sampled_from(["write", "read", "check"])), "sel": draw(st.integers(0, 40)), "structure": "site"}


class Quiet:
    def __init__(self, ctx):
        self.ctx, self.trivial = ctx, False

    def path(self, name):
        path = self.ctx.path(name)
        if os.path.exists(path):
            os.remove(path)
        return path

    def label(self, *a):
        pass


def sweep(c, ctx):
    p = c["p"]
    G.classes(p, ctx)
    ctx.label(c["via"])
    last = len(p["nseq"]) - 1
    for i, k in enumerate(sorted(S.site_fields(p["version"], p["ft"]))):
        for op in [("missing", [k]), ("type", (k, c["sel"] + 3 * i)), ("type", (k, c["sel"] + 3 * i + 1)), ("type", (k, c["sel"] + 3 * i + 2))]:
            run(dict(c, bad={(i + c["sel"]) % (last + 1): [op]}), Quiet(ctx))
            ctx.sub_evals += 1


SUBS = [Sub("long", lambda: case(long=True), run, quick=16, thorough=800), Sub("validate", case, run, quick=1500, thorough=40000), Sub("sweep", swcase, sweep, quick=48, thorough=1500, shards=8)]
