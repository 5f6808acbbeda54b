"""The same operations in interpreters with other time zones, locales, hash seeds, optimisation, logging, and in another order."""
from hypothesis import strategies as st
from lib.harness import Sub, check
from lib import elsewhere
from props import x02 as X
import os

RULE = ("1-4 operations (reading, writing, restructuring, converting, refused ones) on one generated data set, done here and in two other interpreters: optimised, in other time "
        "zones, with other hash seeds, locales, log levels, print options, warning and floating-point error modes, after another history, and in reverse order; trivial never")
ASSUMPTIONS = ["only the C and C.UTF-8 locales are installed", "of refusals the class is compared, since sets in messages print in any order"]


@st.composite
def case(draw):
    d = draw(X.dataset(max_rec=3, nonfinite=("rawacf",)))
    some = st.sampled_from(range(16))
    if d["kind"] == "conv":
        some = st.one_of(some, st.sampled_from([i for i in range(16) if X.BOPS[i % len(X.BOPS)] == "convert"]))
    return {"set": d, "ops": draw(st.lists(st.tuples(some, st.booleans()), min_size=1, max_size=4)), "reverse": draw(st.booleans())}


def work(d, ops, where, reverse):
    """Outcomes of the operations done in a new directory with relative names."""
    back = os.getcwd()
    os.makedirs(where)
    os.chdir(where)
    try:
        inp = X.prepare(d, "in")
        if "recs" in inp:
            inp["shared"] = [inp["recs"](r, d["how"]) for r in d["recs"]]
        res = {}
        for i in (reversed if reverse else list)(range(len(ops))):
            k, flag = ops[i]
            res[i] = X.outcome(d, inp, k, flag, f"out{i}")
        return [res[i] for i in range(len(ops))]
    finally:
        os.chdir(back)


def run(c, ctx):
    d, ops = c["set"], c["ops"]
    top = os.path.abspath(ctx.path("w"))
    want = work(d, ops, os.path.join(top, "here"), False)
    ctx.label(d["kind"], *[x[1][0] if x[0] == "done" else x[1] for x in want])
    ctx.sub_evals = len(ops) * (1 + len(elsewhere.WORLDS))
    for n, name in enumerate(elsewhere.WORLDS):
        got = elsewhere.ask(name, ("props.x04", "work", (d, ops, os.fsencode(os.path.join(top, f"there{n}")), c["reverse"] and n == 0)))
        for i, (a, b) in enumerate(zip(want, got)):
            same = a[0] == b[0] and (X.same(a[1:], b[1:]) if a[0] == "done" else a[1] == b[1])
            check(same, lambda: f"operation {i}: {X.show(a)}; in another environment ({name}{', reverse order' if c['reverse'] and n == 0 else ''}) {X.show(b)}")


SUBS = [Sub("environments", case, run, quick=400, thorough=20000)]
