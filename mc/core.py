"""
Shared machinery of the checks: configuration, parallel exploration, hang guards,
violations with replay files, known findings and evidence.

Every check module defines PROP and run(ctx) and has functions that judge one case
(JSON data) against the real code and return a list of failure messages.
"""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
sys.setrecursionlimit(3000)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
# CPU time, so that other processes on the machine make no difference.
CASE_SECONDS = 60


HANG = "the code under test did not return"


class Hang(Exception):
    """The code under test did not return."""


def _alarm(signum, frame):
    raise Hang()


class Result(object):
    """Counts and failures of a part of the exploration (picklable)."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.failures = []      # (key, case, messages)
        self.nfailures = 0
        self.outcomes = {}
        self.samples = []
        self.hang = False

    def merge(self, other):
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.nfailures += other.nfailures
        self.failures.extend(other.failures)
        for k, v in other.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples.extend(other.samples[:1])

    def outcome(self, k, n=1):
        self.outcomes[k] = self.outcomes.get(k, 0) + n


def from_code_under_test(tb):
    """Whether an exception was raised while running the code under test."""
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(REPO, "jsgf")):
            return True
    return False


def guarded(judge, case, seconds=CASE_SECONDS):
    """
    Judge a case: return a list of failure messages. Exceptions that the case
    function did not expect and that come out of the code under test are failures.
    """
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return judge(case)
    except Hang:
        return [HANG + " within %d s" % seconds]
    except Exception as e:
        if from_code_under_test(sys.exc_info()[2]):
            last = traceback.extract_tb(sys.exc_info()[2])[-1]
            return ["unexpected %s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename),
                last.lineno)]
        # The judges only fail like this if they were given something that no
        # documented behaviour explains.
        last = traceback.extract_tb(sys.exc_info()[2])[-1]
        return ["could not be judged: %s: %s (%s:%d)" % (
            type(e).__name__, str(e)[:300], os.path.basename(last.filename),
            last.lineno)]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


_WORK = None


def _run_chunk(i):
    chunk_fn, chunks = _WORK
    return chunk_fn(chunks[i])


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.tier = TIER
        self.quick = TIER != "thorough"
        self.seed = SEED
        self.total = Result()
        self.parts = []
        self.started = time.time()
        self.assumptions = []
        self.exhaustive = True

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def explore(self, name, cases, judge, bound, group=None):
        """
        Judge every case of a finite space, in parallel. 'judge' is a function
        judge(result, case) -> list of messages that also counts states etc. in
        the result.
        """
        global _WORK
        cases = list(cases)
        if not cases:
            raise AssertionError("empty space: %s" % name)
        n = max(1, min(len(cases), WORKERS * 8))
        chunks = [cases[i::n] for i in range(n)]

        def work(chunk):
            r = Result()
            for case in chunk:
                msgs = guarded(lambda c: judge(r, c), case)
                if msgs:
                    r.nfailures += 1
                    r.hang = msgs[0].startswith(HANG)
                    if len(r.failures) < 20:
                        r.failures.append((name, case, msgs[:5]))
                    if r.hang:
                        break
            if chunk:
                r.samples.append({"part": name, "case": chunk[0]})
            return r

        part = Result()
        t = time.time()
        if len(cases) == 1 or WORKERS == 1:
            part.merge(work(cases))
        else:
            _WORK = (work, chunks)
            pool = multiprocessing.get_context("fork").Pool(WORKERS)
            try:
                for r in pool.imap_unordered(_run_chunk, range(n)):
                    part.merge(r)
                    if r.hang:
                        break
            finally:
                pool.terminate()
                pool.join()
        self.total.merge(part)
        self.parts.append({
            "part": name, "bound": bound, "cases": len(cases),
            "states": part.states, "transitions": part.transitions,
            "traces_validated_against_impl": part.traces,
            "outcomes": dict(sorted(part.outcomes.items())[:40]),
            "failures": part.nfailures, "wall_s": round(time.time() - t, 2),
        })

    # Reporting.

    def finish(self):
        known = load_known(self.prop)
        listed, unlisted = {}, []
        for name, case, msgs in self.total.failures:
            k = find_known(known, name, case)
            if k is not None:
                listed[k["what"]] = True
            else:
                unlisted.append((name, case, msgs))

        samples = self.total.samples[:4]
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.total.states,
                "transitions": self.total.transitions,
                "traces_validated_against_impl": self.total.traces,
                "samples": samples,
                "exhaustive": self.exhaustive,
                "distinct_outcomes": len(self.total.outcomes),
                "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.started, 2),
            "violations": len(unlisted),
        }
        path = os.path.join(VERIF, "evidence", "%s.json" % self.prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(evidence, f, indent=1, default=repr)

        for p in self.parts:
            print("  %-34s cases=%-8d states=%-8d transitions=%-9d outcomes=%d %.1fs"
                  % (p["part"], p["cases"], p["states"], p["transitions"],
                     len(p["outcomes"]), p["wall_s"]))
        for what in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if not unlisted:
            print("OK property=%s tier=%s states=%d transitions=%d wall=%.1fs" % (
                self.prop, self.tier, self.total.states, self.total.transitions,
                time.time() - self.started))
            return 0

        # Smallest cases first.
        unlisted.sort(key=lambda x: len(json.dumps(x[1], default=repr)))
        for i, (name, case, msgs) in enumerate(unlisted[:3]):
            rp = os.path.join("replays", "%s-%d.json" % (self.prop, i))
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump({"property": self.prop, "part": name, "case": case,
                           "messages": msgs}, f, indent=1, default=repr)
            for m in msgs[:3]:
                print("  [%s] %s" % (name, m))
            print("  case: %s" % json.dumps(case, default=repr)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def canon(case):
    return json.loads(json.dumps(case, default=repr))


def find_known(known, name, case):
    c = canon(case)
    for k in known:
        if k["part"] == name and k["case"] == c:
            return k
    return None
