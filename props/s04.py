"""The public field checks on format tables of any content."""
from hypothesis import strategies as st
from lib.harness import Sub, must, check, refuses
from pydarnio import DmapArray, DmapScalar, SDarnUtilities as U, superdarn_exceptions as sx, superdarn_formats
import copy
import numpy as np

RULE = ("1-6 format tables (disjoint, overlapping, equal, with one field or none, some of them optional; also the library's own) and a record holding any part of them "
        "and other fields, with any types; trivial: no table has a field")
ASSUMPTIONS = ["tables that share a field give it the same type"]

NAMES = [f"f{i}" for i in range(12)] + ["bmnum", "radar.revision.major", "Grenzübergang", "x" * 40, "f1 ", "F1", "{f1}", "%s", ""]
TYPES = list("chifdsqBHIQ")
OWN = ["Iqdat", "Rawacf", "Fitacf", "Grid", "Map", "Snd"]


@st.composite
def case(draw):
    own = draw(st.sampled_from([None, None, None] + OWN))
    types = {n: draw(st.sampled_from(TYPES)) for n in NAMES}
    if own:
        f = getattr(superdarn_formats, own)
        tables = [dict(getattr(f, a)) for a in sorted(vars(f)) if isinstance(getattr(f, a), dict)]
        for t in tables:
            types.update(t)
    else:
        tables = [{n: types[n] for n in t} for t in draw(st.lists(st.lists(st.sampled_from(NAMES), max_size=6, unique=True), min_size=1, max_size=6))]
        if draw(st.booleans()):
            # one table is part of another
            t = draw(st.sampled_from(tables))
            tables.insert(draw(st.integers(0, len(tables))), {n: t[n] for n in (draw(st.lists(st.sampled_from(sorted(t)), unique=True)) if t else [])})
    optional = draw(st.lists(st.sampled_from(range(len(tables))), max_size=2, unique=True))
    # what the record holds of each table: nothing, everything, or some fields
    holds = set()
    for t in tables:
        how = draw(st.sampled_from(["all", "all", "none", "some", "one less"]))
        names = sorted(t)
        if how == "all":
            holds |= set(names)
        elif how == "some" and names:
            holds |= set(draw(st.lists(st.sampled_from(names), max_size=4)))
        elif how == "one less" and names:
            holds |= set(names) - {draw(st.sampled_from(names))}
    extra = draw(st.lists(st.sampled_from(NAMES), max_size=3)) if draw(st.booleans()) else []
    wrong = {n: draw(st.sampled_from(TYPES)) for n in draw(st.lists(st.sampled_from(sorted(holds)), max_size=3))} if holds and draw(st.booleans()) else {}
    return {"tables": tables, "optional": optional, "record": draw(st.permutations(sorted(holds | set(extra)))), "types": types, "wrong": wrong, "number": draw(st.integers(0, 10**6)),
            "array": draw(st.booleans()), "as": draw(st.sampled_from(["dict", "set"]))}


def run(c, ctx):
    tables = c["tables"]
    optional = [dict(tables[i]) for i in c["optional"]]
    fields = set().union(*tables)
    ctx.trivial = not fields
    rec = {}
    for n in c["record"]:
        t = c["wrong"].get(n, c["types"][n])
        rec[n] = DmapArray(n, np.zeros(2), 4, t, 1, [2]) if c["array"] and len(n) % 2 else DmapScalar(n, 1, 4, t)
    before = copy.deepcopy((tables, optional, list(rec)))
    a, b = (set(rec), set(tables[0])) if c["as"] == "set" else (rec, tables[0])
    with must("dict_key_diff"):
        check(U.dict_key_diff(a, b) == {n for n in rec if n not in tables[0]}, "dict_key_diff(record, table) is not the difference")
        check(U.dict_key_diff(b, a) == {n for n in tables[0] if n not in rec}, "dict_key_diff(table, record) is not the difference")
        got = U.dict_list2set(tables)
        check(isinstance(got, set) and got == fields, lambda: f"dict_list2set gives {got} for {tables}")
    extra = {n for n in rec if n not in fields}
    missing = set()
    for t in tables:
        if t not in optional:
            gone = {n for n in t if n not in rec}
            if gone and gone != set(t):
                missing |= gone
    verdict("extra_field_check", extra, sx.SuperDARNExtraFieldError, lambda: U.extra_field_check(tables, rec, c["number"]), c, ctx)
    verdict("missing_field_check", missing, sx.SuperDARNFieldMissingError, lambda: U.missing_field_check(tables, rec, c["number"], optional), c, ctx)
    if not optional:
        verdict("missing_field_check without optional tables", missing, sx.SuperDARNFieldMissingError, lambda: U.missing_field_check(tables, rec, c["number"]), c, ctx)
    known = {n: v for n, v in rec.items() if n in fields}
    wrong = {n for n, t in c["wrong"].items() if t != c["types"][n] and n in fields}
    verdict("incorrect_types_check", wrong, sx.SuperDARNDataFormatTypeError, lambda: U.incorrect_types_check(tables, known, c["number"]), c, ctx)
    check(before == (tables, optional, list(rec)), "a check changed the tables or the record")


def verdict(name, bad, error, act, c, ctx):
    ctx.label(f"{name.split()[0]} {'refuses' if bad else 'accepts'}")
    if not bad:
        with must(f"{name} of a record without such faults"):
            act()
        return
    e = refuses(f"{name}: {sorted(bad)}", error, act)
    named = e.incorrect_params if error is sx.SuperDARNDataFormatTypeError else e.fields
    check(set(named) == bad, lambda: f"{name} names {named}, not {bad}")
    if error is sx.SuperDARNDataFormatTypeError:
        check(all(named[n] == c["types"][n] for n in bad), lambda: f"{name} gives {named} as the expected types")
    check(e.record_number == c["number"] and str(c["number"]) in str(e), lambda: f"{name} reports record {e.record_number}, not {c['number']}: {e}")


SUBS = [Sub("tables", case, run, quick=3000, thorough=200000)]
