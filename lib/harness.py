"""Driver for generated checks (see DESIGN.md)."""
import base64, collections, contextlib, hashlib, io, json, math, os, pickle, random, shutil, signal
import sys, tempfile, time, zlib, traceback, resource, multiprocessing as mp
from lib import env  # noqa: F401
import numpy as np
import hypothesis
from hypothesis import settings, HealthCheck, Phase
import hypothesis.internal.conjecture.engine as _eng

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CPU_LIMIT_PER_CASE = 60


class Violation(Exception):
    pass


class Hang(BaseException):
    """The code under test did not finish one case within CPU_LIMIT_PER_CASE CPU seconds."""


class HarnessError(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@contextlib.contextmanager
def must(what):
    """The enclosed calls into the code under test must succeed."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "pydarnio" in fr.filename:
                where = f" at {os.path.basename(fr.filename)}:{fr.name}"
                break
        raise Violation(f"{what}: unexpected {type(e).__name__}: {str(e)[:400]}{where}") from e


def refuses(what, exc_types, fn):
    """fn() must raise one of exc_types; returns the exception."""
    try:
        r = fn()
    except (Violation, HarnessError):
        raise
    except exc_types as e:
        return e
    except Exception as e:
        raise Violation(f"{what}: expected {_n(exc_types)}, got {type(e).__name__}: {str(e)[:300]}") from e
    raise Violation(f"{what}: expected {_n(exc_types)}, but the call succeeded ({type(r).__name__})")


def _n(t):
    return "/".join(x.__name__ for x in t) if isinstance(t, tuple) else t.__name__


class Ctx:
    """Per-case facts: scratch directory, classification labels, triviality."""
    def __init__(self, scratch):
        self.dir = scratch
        self.labels = []
        self.trivial = False
        self.sub_evals = 1
        self._n = 0

    def path(self, name=None):
        self._n += 1
        name = name or f"f{self._n}"
        return name if self.dir == "." else os.path.join(self.dir, name)

    def label(self, *ls):
        self.labels.extend(ls)


class Sub:
    """One sub-check of a property."""
    def __init__(self, name, strategy, check, quick, thorough=None, examples=(), known=None, shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 20
        self.examples, self.known = examples, known
        self.shards = shards


class Stats:
    def __init__(self):
        self.evals = 0; self.sub_evals = 0; self.trivial = 0; self.invalid = 0
        self.hashes = set(); self.labels = collections.Counter(); self.samples = []
        self.known = collections.Counter(); self.capped = False


def short(x, n=700):
    with np.printoptions(threshold=12, edgeitems=3):
        s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def derive(seed, *parts):
    h = hashlib.sha256(("/".join(map(str, (seed,) + parts))).encode()).digest()
    return int.from_bytes(h[:7], "big")


class Runner:
    def __init__(self, pid, sub, scratch_root, deadline):
        self.pid, self.sub, self.deadline = pid, sub, deadline
        self.root = scratch_root
        self.stats = Stats()
        self.last = None
        self.count = 0

    def execute(self, case, replay=False):
        if not replay and time.monotonic() > self.deadline:
            self.stats.capped = True
            return
        self.count += 1
        d = os.path.join(self.root, f"c{self.count} \u00e9{{0}} %s")  # awkward, but a valid path
        os.mkdir(d)
        # every third case works with relative names in its own directory
        relative = zlib.crc32(short(case, 4000).encode("utf-8", "replace")) % 3 == 0
        if relative:
            os.chdir(d)
        ctx = Ctx("." if relative else d)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                self.sub.check(case, ctx)
        except Violation as v:
            kid = self.sub.known(case, str(v)) if self.sub.known else None
            if kid and not replay:
                self.stats.known[kid] += 1
                return
            self.last = (case, str(v))
            raise
        except Hang:
            self.last = (case, f"no result within {CPU_LIMIT_PER_CASE} CPU seconds (hang)")
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as e:
            # the outcome is so far from what the property promises that the oracle could not even examine it
            where = traceback.extract_tb(e.__traceback__)[-1]
            msg = f"the outcome could not be examined: {type(e).__name__}: {str(e)[:300]} at {os.path.basename(where.filename)}:{where.name}"
            self.last = (case, msg)
            raise Violation(msg) from e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.chdir(self.root)
            shutil.rmtree(d, ignore_errors=True)
        st = self.stats
        st.evals += 1
        st.sub_evals += ctx.sub_evals
        st.labels.update(set(ctx.labels))
        if ctx.trivial:
            st.trivial += 1
        else:
            st.hashes.add(hashlib.sha1(pickle.dumps(case)).digest()[:10])
            if len(st.samples) < 2 or (len(st.samples) < 4 and st.evals % 37 == 0):
                st.samples.append(short(case))


def _hang(sig, frame):
    raise Hang()


def run_job(pid, sub, seed, n, cap, with_examples, outfile):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    signal.signal(signal.SIGPROF, _hang)
    _eng.MAX_SHRINKING_SECONDS = 40
    root = tempfile.mkdtemp(prefix="verif_")
    tempfile.tempdir = root
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(root, "hyp"))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    r = Runner(pid, sub, root, time.monotonic() + cap)
    res = {"sub": sub.name, "error": None, "violation": None}
    t0 = time.monotonic()
    try:
        try:
            if with_examples:
                for ex in (sub.examples() if callable(sub.examples) else sub.examples):
                    r.execute(ex)
            if n > 0 and sub.strategy is not None:
                @hypothesis.seed(seed)
                @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                          phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
                @hypothesis.given(sub.strategy())
                def test(case):
                    r.execute(case)
                test()
        except (Violation, Hang):
            res["violation"] = r.last
        except BaseException as e:
            if r.last is not None and isinstance(e, (hypothesis.errors.Flaky, hypothesis.errors.HypothesisException, BaseExceptionGroup)):
                res["violation"] = r.last
            else:
                res["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    res["stats"] = r.stats
    res["wall"] = time.monotonic() - t0
    with open(outfile + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(outfile + ".tmp", outfile)


def run_property(pid, mod, tier, only=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    cap = float(os.environ.get("VERIF_CAP", 240 if tier == "quick" else 3000))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = []
    for s in subs:
        n = max(1, int((4 * s.quick if tier == "quick" else s.thorough) * scale))
        shards = s.shards or (1 if n <= 60 else min(NPROC, math.ceil(n / 60)))
        if s.strategy is None:
            shards, n = 1, 0
        for k in range(shards):
            jobs.append((s, derive(seed, pid, s.name, k), math.ceil(n / shards), k == 0))
    jobs.sort(key=lambda j: -j[2])
    tmp = tempfile.mkdtemp(prefix="verifrun_")
    mpc = mp.get_context("fork")
    running, results, errors = [], [], []
    pending = list(enumerate(jobs))
    t_end = t0 + cap + 420
    try:
        while pending or running:
            while pending and len(running) < NPROC:
                i, (s, sd, n, first) = pending.pop(0)
                out = os.path.join(tmp, f"j{i}")
                p = mpc.Process(target=run_job, args=(pid, s, sd, n, max(5.0, cap - (time.monotonic() - t0)), first, out))
                p.start()
                running.append((p, out, s))
            time.sleep(0.02)
            for item in list(running):
                p, out, s = item
                if not p.is_alive():
                    p.join()
                    running.remove(item)
                    if os.path.exists(out):
                        results.append(pickle.load(open(out, "rb")))
                    else:
                        errors.append(f"{s.name}: worker ended with code {p.exitcode} and no result")
            if time.monotonic() > t_end:
                for p, out, s in running:
                    p.kill()
                    errors.append(f"{s.name}: worker stuck, killed")
                running, pending = [], []
    finally:
        for p, _, _ in running:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    errors += [r["sub"] + ": " + r["error"] for r in results if r["error"]]
    findings = load_findings(pid)
    viols = {}
    for r in results:
        if r["violation"]:
            case, msg = r["violation"]
            size = len(pickle.dumps(case))
            if r["sub"] not in viols or size < viols[r["sub"]][2]:
                viols[r["sub"]] = (case, msg, size)
    lines = []
    for name, (case, msg, _) in viols.items():
        path = write_replay(pid, name, tier, seed, case, msg)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"[{pid}/{name}] {msg}")
        print("   case: " + short(case, 1500))
    known = collections.Counter()
    for r in results:
        known.update(r["stats"].known)
    listed = {f["id"]: f for f in findings if f.get("status") == "known"}
    for kid in known:
        if kid not in listed:
            errors.append(f"check suppresses {kid}, which known_findings.json does not list")
    for kid, f in listed.items():
        print(f"KNOWN-FINDING: property={pid} {f['what']} (seen {known.get(kid, 0)} times in this run)")
    write_evidence(pid, mod, tier, seed, results, len(viols), known, time.monotonic() - t0)
    for e in errors:
        print("HARNESS-ERROR " + e, file=sys.stderr)
    for ln in lines:
        print(ln)
    tot = sum(r["stats"].evals for r in results)
    print(f"{pid} {tier} seed={seed}: {tot} cases, {len(lines)} violations, {len(errors)} errors, {time.monotonic()-t0:.1f}s")
    if lines:
        return 1
    return 2 if errors else 0


def load_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f["property"] == pid]


def write_replay(pid, sub, tier, seed, case, msg):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    blob = pickle.dumps(case)
    path = os.path.join(d, f"{pid}_{sub}_{hashlib.sha1(blob).hexdigest()[:8]}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": sub, "tier": tier, "seed": seed, "message": msg,
                   "case": short(case, 20000), "pickle": base64.b64encode(blob).decode()}, f, indent=1)
    return path


def replay(pid, mod, path):
    j = json.load(open(path))
    sub = next(s for s in mod.SUBS if s.name == j["sub"])
    case = pickle.loads(base64.b64decode(j["pickle"]))
    root = tempfile.mkdtemp(prefix="verif_")
    signal.signal(signal.SIGPROF, _hang)
    r = Runner(pid, sub, root, float("inf"))
    try:
        r.execute(case, replay=True)
    except (Violation, Hang):
        print(f"[{pid}/{sub.name}] {r.last[1]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(f"{pid}/{sub.name}: replayed case holds")
    return 0


def write_evidence(pid, mod, tier, seed, results, nviol, known, wall):
    per, labels, samples = {}, collections.Counter(), []
    ev = nt = 0
    for r in results:
        st = r["stats"]
        d = per.setdefault(r["sub"], {"cases": 0, "inner_evaluations": 0, "trivial": 0, "hashes": set(), "labels": collections.Counter(), "wall_capped": False})
        d["cases"] += st.evals; d["inner_evaluations"] += st.sub_evals; d["trivial"] += st.trivial
        d["hashes"] |= st.hashes; d["labels"].update(st.labels); d["wall_capped"] |= st.capped
        if sum(1 for s in samples if s["sub"] == r["sub"]) < 2 and st.samples:
            samples.append({"sub": r["sub"], "case": st.samples[0]})
    for name, d in per.items():
        h = d.pop("hashes")
        d["distinct_nontrivial"] = len(h)
        d["labels"] = dict(sorted(d["labels"].items()))
        ev += d["inner_evaluations"]; nt += len(h)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": nt,
                        "rule": mod.RULE, "samples": samples[:12], "per_subcheck": per,
                        "excluded_as_known": dict(known)},
           "assumptions": getattr(mod, "ASSUMPTIONS", []),
           "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
