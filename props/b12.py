from hypothesis import strategies as st
from lib.harness import Sub, must, check
from lib import bgen as G, bspec as S, bh5
from pydarnio import BorealisRead
import numpy as np

RULE = ("records of every version and type, read from a file of either structure; the tables and functions of its format class asked in random order, some twice, "
        "with the views of the data asked in between, compared with independent tables and with the data itself; trivial never")
ASSUMPTIONS = ["tables are compared as sets; text types by kind", "dimensions of per-record texts are not judged", "the sizes of pulse phase offsets are those of the data, or nothing when they are empty"]
TABLES = ["shared_fields", "unshared_fields", "array_specific_fields", "site_specific_fields", "site_fields", "array_fields", "site_single_element_fields",
          "site_single_element_types", "site_array_dtypes_fields", "site_array_dtypes", "array_single_element_fields", "array_single_element_types",
          "array_array_dtypes_fields", "array_array_dtypes", "string_fields", "single_string_fields", "array_string_fields", "bool_types", "single_element_types",
          "array_dtypes", "is_restructureable"]
FUNCS = ["dims_array", "dims_site", "array_specific", "site_specific", "iterative", "flatten", "reshape", "max_dims", "views", "find_max"]


@st.composite
def case(draw):
    p = draw(G.params(fts=S.FT, max_rec=4))
    large = st.one_of(st.integers(1, 5), st.sampled_from([127, 128, 255, 256, 300, 1000, 33000, 70000]))
    n = len(p["nseq"])
    return {"p": p, "layout": draw(st.sampled_from([0, 1, 2, 3, 4])), "large": draw(st.lists(st.tuples(large, large), min_size=n, max_size=n)), "structure": "site" if p["ft"] == "rawrf" else draw(st.sampled_from(["site", "array"])),
            "ask": draw(st.lists(st.one_of(st.sampled_from(TABLES), st.sampled_from(FUNCS)), min_size=6, max_size=20))}


TEXTS = ("slice_interfacing",)


def kind(t):
    t = np.dtype(t)
    return t.kind if t.kind in "US" else t.str


def tables(v, ft):
    """The expected answer to each question about tables."""
    site, un = S.site_fields(v, ft), S.unshared(v, ft)
    every = {k: x[:2] for k, x in S.table(v).items() if ft in x[2]}
    if ft not in S.RESTRUCT:
        every = {k: x for k, x in every.items() if k in site}
    single = {k: kind(t) for k, (a, t) in every.items() if a == "a"}
    arrs = {k: kind(t) for k, (a, t) in every.items() if a == "d"}
    out = {"single_element_types": single, "array_dtypes": arrs, "is_restructureable": ft in S.RESTRUCT,
           "single_string_fields": {k for k in single if single[k] == "U"}, "array_string_fields": {k for k in arrs if arrs[k] == "U"},
           "string_fields": {k for k, t in every.items() if kind(t[1]) == "U"}, "bool_types": {k for k in single if single[k] == kind(np.bool_)},
           "site_fields": set(site), "site_single_element_fields": {k for k in site if k in single}, "site_single_element_types": {k: single[k] for k in site if k in single},
           "site_array_dtypes_fields": {k for k in site if k in arrs}, "site_array_dtypes": {k: arrs[k] for k in site if k in arrs}}
    if ft in S.RESTRUCT:
        arr, sh = S.array_fields(v, ft), S.shared(v, ft)
        out.update({"shared_fields": sh, "unshared_fields": un & set(every), "array_fields": set(arr), "site_specific_fields": set(site) - un - sh,
                    "array_specific_fields": set(arr) - un - sh, "array_single_element_fields": {k for k, x in arr.items() if x[0] == "a"},
                    "array_single_element_types": {k: kind(x[1]) for k, x in arr.items() if x[0] == "a"},
                    "array_array_dtypes_fields": {k for k, x in arr.items() if x[0] == "d"}, "array_array_dtypes": {k: kind(x[1]) for k, x in arr.items() if x[0] == "d"}})
    return out


def flat(x):
    out = []
    for i in x:
        out += flat(i) if isinstance(i, (list, tuple, np.ndarray)) else [int(i)]
    return out


def shaped(v, ft, recs):
    """The records with their bulk data in its dimensions."""
    out = G.snapshot(recs)
    for r in out.values():
        for k in S.BULK[ft]:
            r[k] = r[k].reshape(tuple(int(x) for x in r[S.dims_field(v, ft)]))
    return out


def same(got, want, what):
    check(G.same(np.asarray(got), np.asarray(want)), lambda: f"{what}: {got!r:.200}, want {want!r:.200}")


def run(c, ctx):
    p, s = c["p"], c["structure"]
    v, ft = p["version"], p["ft"]
    G.classes(p, ctx)
    ctx.label(s)
    if max(p["nseq"]) > 255 and "max_dims" in c["ask"]:
        ctx.label("max_dims of many sequences")
    if len(p["nseq"]) > 16 and "max_dims" in c["ask"]:
        ctx.label("max_dims of many records")
    recs = G.build(p)
    arrays = G.to_arrays(v, ft, recs) if ft in S.RESTRUCT else None
    keep, keepa = G.snapshot(recs), G.snapshot(arrays) if arrays else None
    path, spath = ctx.path("in"), ctx.path("site")
    bh5.write_site(spath, recs)
    (bh5.write_site if s == "site" else bh5.write_array)(path, recs if s == "site" else arrays)
    with must("reading the file"):
        rd = BorealisRead(path, ft)
    f = rd.format
    want = tables(v, ft)
    ctx.sub_evals = 0
    for q in c["ask"]:
        ctx.sub_evals += 1
        ctx.label("asked " + q)
        if q in TABLES:
            if q not in want:
                continue
            with must(q):
                got = getattr(f, q)()
            w = want[q]
            if isinstance(w, bool):
                check(got == w, lambda: f"{q} is {got}")
            elif isinstance(w, dict):
                check({k: kind(t) for k, t in got.items()} == w, lambda: f"{q}: {sorted(set(got) ^ set(w)) or sorted(k for k in w if kind(got[k]) != w[k])} differ")
            else:
                check(len(set(got)) == len(list(got)) and set(got) == w, lambda: f"{q}: {sorted(set(got) ^ w)} differ, {len(list(got))} names")
            continue
        if q == "flatten":
            x = G.relaid(shaped(v, ft, recs), c["layout"])
            y = G.snapshot(x)
            with must(q):
                got = f.flatten_site_arrays(x)
            G.expect(G.diff_records(got, keep, "flattened records"))
            G.expect(G.diff_records(x, y, "records given to flatten_site_arrays"))
        elif q == "reshape":
            with must(q):
                got = f.reshape_site_arrays(G.relaid(recs, c["layout"]))
            G.expect(G.diff_records(got, shaped(v, ft, recs), "reshaped records"))
        elif ft not in S.RESTRUCT:
            continue
        elif q == "views":
            with must("views"):
                rec, arr = rd.records, rd.arrays
            G.expect(G.diff_records(rec, keep, "records") or G.diff(arr, keepa, "arrays"))
        elif q == "dims_array":
            with must(q):
                got = {k: flat([fn(recs) for fn in fns]) for k, fns in f.unshared_fields_dims_array().items()}
            check(set(got) == want["unshared_fields"], lambda: f"{q}: fields {sorted(set(got) ^ want['unshared_fields'])} differ")
            for k, d in got.items():
                if k in TEXTS:
                    continue
                check(d == list(arrays[k].shape[1:]), lambda: f"{q}: {k} has dimensions {d}, want {arrays[k].shape[1:]}")
        elif q == "dims_site":
            bulk = shaped(v, ft, recs)
            for i, (name, r) in enumerate(bulk.items()):
                with must(q):
                    got = {k: [int(x) for x in flat([fn(arrays, i) for fn in fns]) if x != -1] for k, fns in f.unshared_fields_dims_site().items()}
                check(set(got) == want["unshared_fields"], lambda: f"{q}: fields {sorted(set(got) ^ want['unshared_fields'])} differ")
                for k, d in got.items():
                    if k in TEXTS:
                        continue
                    sh = np.shape(r[k])
                    check(d == list(sh), lambda: f"{q}: record {i} {k} has dimensions {d}, want {sh}")
        elif q == "array_specific":
            with must(q):
                got = {k: fn(recs) for k, fn in f.array_specific_fields_generate().items()}
            check(set(got) == want["array_specific_fields"], lambda: f"{q}: fields {sorted(set(got) ^ want['array_specific_fields'])} differ")
            for k, x in got.items():
                same(x, arrays[k], f"{q}: {k}")
        elif q == "iterative":
            for i, r in enumerate(recs.values()):
                with must(q):
                    got = {k: fn(r) for k, fn in f.array_specific_fields_iterative_generator().items()}
                check(set(got) == {k for k in want["array_specific_fields"] if k.startswith("num_")}, lambda: f"{q}: fields {sorted(got)}")
                for k, x in got.items():
                    check(int(x) == int(arrays[k][i]), lambda: f"{q}: record {i}: {k} {x}, want {arrays[k][i]}")
        elif q == "site_specific":
            for i, r in enumerate(recs.values()):
                with must(q):
                    got = {k: fn(arrays, i) for k, fn in f.site_specific_fields_generate().items()}
                check(set(got) == want["site_specific_fields"], lambda: f"{q}: fields {sorted(set(got) ^ want['site_specific_fields'])} differ")
                for k, x in got.items():
                    same(x, r[k], f"{q}: record {i}: {k}")
        elif q == "find_max":
            with must(q):
                got = (int(f.find_max_sequences(recs)), int(f.find_max_beams(recs)))
            big = {k: dict(r, num_sequences=type(r["num_sequences"])(a), beam_nums=np.zeros(b, np.uint32), sqn_timestamps=np.zeros(a), beam_azms=np.zeros(b))
                   for (k, r), (a, b) in zip(recs.items(), c["large"])}
            with must(q):
                most = (int(f.find_max_sequences(big)), int(f.find_max_beams(big)))
            want_most = tuple(max(x) for x in zip(*c["large"]))
            check(most == want_most, lambda: f"largest numbers of sequences and beams {most}, want {want_most}")
            check(got == (max(p["nseq"]), max(p["nbeams"])), lambda: f"largest numbers of sequences and beams {got}, want {max(p['nseq'])}, {max(p['nbeams'])}")
        elif q == "max_dims":
            with must(q):
                d, ms, mb = f.site_get_max_dims(spath, f.unshared_fields())
            check((int(ms), int(mb)) == (max(p["nseq"]), max(p["nbeams"])), lambda: f"{q}: {ms} sequences, {mb} beams")
            for k, x in d.items():
                want_d = arrays[k].shape[1:]
                check(tuple(flat([x])) == tuple(want_d), lambda: f"{q}: {k} has dimensions {x}, want {want_d}")
    G.expect(G.diff_records(recs, keep, "records given"))
    if arrays:
        G.expect(G.diff(arrays, keepa, "arrays given"))


SUBS = [Sub("format", case, run, quick=600, thorough=12000)]
