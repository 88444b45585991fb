"""Exhaustive explorer.

A property module offers families of *cases*.  A family is a finite, ordered
generator; every case of it is executed on the real code by the family's run
function, which compares what the code did with the reference model and raises
Violation on any difference.  The explorer runs all cases of all families
(never a sample), spread over forked workers by striding, and reports how many
distinct states were seen, how many operations (transitions) were executed and
how many complete executions were compared with the model.
"""
import dataclasses
import gc
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Violation(Exception):
    pass


class Hang(BaseException):
    """Raised in a case that used up its CPU budget (not an Exception: nothing swallows it)."""


@dataclasses.dataclass
class Family:
    name: str
    gen: object  # callable -> iterable of JSON-able cases, simplest first
    run: object  # callable(case, ctx)
    bound: str
    cpu_s: float = 60.0
    jobs: int = 0  # 0: all workers


class Ctx:
    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.transitions = 0
        self.traces = 0
        self.nontrivial = set()
        self.states = set()
        self.findings = {}
        self.known = {}
        self.sample = None
        self.real_stdout = sys.stdout

    def ops(self, n=1):
        """n operations of the system under test were executed"""
        self.transitions += n

    def trace(self, n=1):
        """n complete executions were compared with the reference model"""
        self.traces += n

    def state(self, obs):
        """a canonical state / outcome (hashable) was observed"""
        self.states.add(hash(obs))

    def nontriv(self, key):
        self.nontrivial.add(hash(key))

    def finding(self, fid, what):
        """a deviation that known-findings.txt lists; anything else is a violation"""
        if fid not in self.known:
            raise Violation(what)
        self.findings.setdefault(fid, what)


def fail(msg):
    raise Violation(msg)


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def check_eq(actual, expected, what):
    if actual != expected:
        raise Violation(diff(what, actual, expected))


def diff(what, actual, expected, path=""):
    """first difference between two nested structures, readable"""
    if type(actual) is type(expected):
        if isinstance(actual, dict):
            for k in list(expected) + [k for k in actual if k not in expected]:
                if k not in actual:
                    return f"{what}: {path}[{k!r}] missing, expected {short(expected[k], 200)}"
                if k not in expected:
                    return f"{what}: {path}[{k!r}] unexpected: {short(actual[k], 200)}"
                if actual[k] != expected[k]:
                    return diff(what, actual[k], expected[k], f"{path}[{k!r}]")
        elif isinstance(actual, (list, tuple)):
            if len(actual) != len(expected):
                for i, (x, y) in enumerate(zip(actual, expected)):
                    if x != y:
                        return diff(what, x, y, f"{path}[{i}]") + f" (lengths {len(actual)} and {len(expected)})"
                return (f"{what}: {path} has length {len(actual)}, expected {len(expected)}: "
                        f"{short(actual, 300)} expected {short(expected, 300)}")
            for i, (x, y) in enumerate(zip(actual, expected)):
                if x != y:
                    return diff(what, x, y, f"{path}[{i}]")
    return f"{what}: {path} is {short(actual, 300)}, expected {short(expected, 300)}"


def load_known(prop):
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("id="):
                    known[parts[2][3:]] = parts[3].strip()
    return known


def _alarm(signum, frame):
    raise Hang("CPU budget used up")


class NullOut:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def run_case(fam, case, ctx):
    """-> None or a message"""
    signal.setitimer(signal.ITIMER_PROF, fam.cpu_s)
    try:
        fam.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return f"did not finish within {fam.cpu_s:.0f} s of CPU time"
    except RecursionError:
        return "unexpected RecursionError\n" + traceback.format_exc(limit=-3)
    except MemoryError:
        return "unexpected MemoryError"
    except (Exception, SystemExit, GeneratorExit):
        return "unexpected exception from the code under test:\n" + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def setup_worker(scratch, tier, known):
    signal.signal(signal.SIGPROF, _alarm)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    ctx = Ctx(scratch, tier)
    ctx.known = known
    sys.stdout = NullOut()
    gc.disable()
    return ctx


def worker(w, n, fams, scratch, tier, known, stop, conn):
    try:
        ctx = setup_worker(os.path.join(scratch, f"w{w}"), tier, known)
        stats = []
        bad = None
        for fi, fam in enumerate(fams):
            m = min(fam.jobs or n, n)
            if stop.is_set():
                break
            if w >= m:
                stats.append((0, 0.0, None, 0, 0, 0.0))
                continue
            t0 = time.time()
            done = 0
            sample, slowest = None, 0.0
            tr0, op0 = ctx.traces, ctx.transitions
            for i, case in enumerate(fam.gen()):
                if i % m != w:
                    continue
                if done % 16 == 0:
                    if stop.is_set():
                        break
                    if done % 512 == 0:
                        gc.collect()
                c0 = time.process_time()
                msg = run_case(fam, case, ctx)
                slowest = max(slowest, time.process_time() - c0)
                done += 1
                if sample is None or done == 37:
                    sample = case
                if msg is not None:
                    bad = (fi, i, m, case, msg)
                    stop.set()
                    break
            stats.append((done, time.time() - t0, sample, ctx.transitions - op0, ctx.traces - tr0, slowest))
            if bad:
                break
        conn.send(dict(stats=stats, bad=bad, states=ctx.states, transitions=ctx.transitions,
                       traces=ctx.traces, nontrivial=ctx.nontrivial, findings=ctx.findings))
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    finally:
        conn.close()
        sys.stdout = sys.__stdout__
        os._exit(0)


def confirm(fam, case, scratch, tier, known):
    """run one case alone in a fresh process; -> message or None"""
    ctxm = multiprocessing.get_context("fork")
    a, b = ctxm.Pipe(False)

    def go():
        try:
            ctx = setup_worker(os.path.join(scratch, "confirm"), tier, known)
            b.send(run_case(fam, case, ctx))
        finally:
            b.close()
            os._exit(0)

    p = ctxm.Process(target=go)
    p.start()
    b.close()
    try:
        msg = a.recv()
    except EOFError:
        msg = "the process running the case died"
    p.join()
    shutil.rmtree(os.path.join(scratch, "confirm"), ignore_errors=True)
    return msg


def main(prop, tier, replay=None, jobs=0, verbose=False):
    t0 = time.time()
    if tier not in ("quick", "thorough"):
        print(f"unknown tier {tier}")
        return 2
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    from mc import sut
    sut.load()
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    fams = mod.families(tier)
    known = load_known(prop)
    scratch = tempfile.mkdtemp(prefix=f"vgmmc-{prop}-")
    try:
        return _main(prop, tier, replay, jobs, verbose, t0, seed, mod, fams, known, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def tuples(x):
    return tuple(map(tuples, x)) if isinstance(x, list) else x


def _main(prop, tier, replay, jobs, verbose, t0, seed, mod, fams, known, scratch):
    if replay:
        rec = json.load(open(replay))
        fam = [f for f in mod.families(rec["tier"]) if f.name == rec["family"]][0]
        msg = confirm(fam, tuples(rec["case"]), scratch, rec["tier"], known)
        if msg is None and rec.get("index") is not None:
            # it needs the cases before it in the same process: run them all again
            ctx_stride = rec["stride"]

            def seq(case, ctx):
                for i, c in enumerate(fam.gen()):
                    if i > rec["index"]:
                        break
                    if i % ctx_stride == rec["index"] % ctx_stride:
                        fam.run(c, ctx)
            msg = confirm(Family(fam.name, None, seq, "", 900), None, scratch, rec["tier"], known)
        if msg is None:
            print(f"{prop}: replay passes")
            return 0
        print(msg)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1

    n = jobs or os.cpu_count() or 1
    mp = multiprocessing.get_context("fork")
    stop = mp.Event()
    procs = []
    gc.collect()
    gc.freeze()
    for w in range(n):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(w, n, fams, scratch, tier, known, stop, b))
        p.start()
        b.close()
        procs.append((p, a))
    res = []
    for p, a in procs:
        try:
            res.append(a.recv())
        except EOFError:
            res.append(dict(error=f"worker died (exit code {p.exitcode})"))
        p.join()
    errors = [r["error"] for r in res if "error" in r]
    res = [r for r in res if "error" not in r]
    bads = sorted((r["bad"] for r in res if r["bad"]), key=lambda b: (b[0], b[1]))
    if errors and not bads:
        print(f"{prop}: error of the check\n" + "\n".join(errors))
        return 2

    states, nontriv, findings = set(), set(), {}
    for r in res:
        states |= r["states"]
        nontriv |= r["nontrivial"]
        for k, v in r["findings"].items():
            findings.setdefault(k, v)
    famstats, samples = [], []
    for fi, fam in enumerate(fams):
        rows = [r["stats"][fi] for r in res if len(r["stats"]) > fi]
        cases = sum(x[0] for x in rows)
        famstats.append(dict(family=fam.name, bound=fam.bound, cases=cases,
                             operations=sum(x[3] for x in rows), executions=sum(x[4] for x in rows)))
        for x in rows:
            if x[2] is not None:
                samples.append(dict(family=fam.name, case=json.loads(short_json(x[2]))))
                break
        if verbose:
            print(f"  {fam.name}: {cases} cases, {max((x[1] for x in rows), default=0):.1f} s max worker, "
                  f"slowest case {max((x[5] for x in rows), default=0):.2f} of {fam.cpu_s:.0f} s CPU")
    traces = sum(r["traces"] for r in res)
    transitions = sum(r["transitions"] for r in res)
    level = mod.LEVEL
    cov = dict(samples=samples[:12], families=famstats, exhaustive=not bads)
    if level == "model_checking":
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=traces, distinct_nontrivial=len(nontriv), rule=mod.RULE,
                   operations_executed=transitions, distinct_outcomes=len(states))
    cov["explanation"] = getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip())
    cov["known_findings_seen"] = sorted(findings)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                  "CPython 3.12 and xsdata 21.12 of /opt/venv behave as documented",
                  "behaviour outside the stated bounds is not covered",
                  "the reference model mc/ref.py states the intended behaviour"],
              wall_s=round(time.time() - t0, 2), violations=1 if bads else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evpath = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(evpath + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evpath + ".tmp", evpath)

    if bads:
        fi, idx, stride, case, msg = bads[0]
        fam = fams[fi]
        again = confirm(fam, case, scratch, tier, known)
        rec = dict(property=prop, tier=tier, family=fam.name, case=case, message=msg, index=idx, stride=stride,
                   reproduced_alone=again is not None)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps([fam.name, case]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print(f"{prop}: family {fam.name}, case {short(json.dumps(case), 400)}")
        print(msg)
        if again is None:
            print("(only after the cases before it in the same process)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for fid in sorted(findings):
        print(f"KNOWN-FINDING: property={prop} {fid}: {findings[fid]}")
    print(f"{prop}: held on all {traces} executions ({len(states)} distinct states, {transitions} operations, "
          f"{sum(f['cases'] for f in famstats)} cases in {len(fams)} families, {time.time() - t0:.1f} s)")
    return 0


def short_json(x):
    s = json.dumps(x)
    return s if len(s) < 2000 else json.dumps(s[:2000] + "...")


# ---- generators -------------------------------------------------------------

def sequences(k, maxlen, minlen=0):
    """all index sequences over an alphabet of size k, shortest first"""
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(range(k), repeat=n)


def merges(n, m):
    """all interleavings of n steps of A (0) with m steps of B (1)"""
    for pos in itertools.combinations(range(n + m), n):
        s = [1] * (n + m)
        for p in pos:
            s[p] = 0
        yield s
