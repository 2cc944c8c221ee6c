"""
Runner of the property-based checks.

``python -m pbt C05`` (master) starts a few worker processes; every worker drives the
Hypothesis tests of the property with seeds derived from VERIF_SEED, and reports counters as
JSON.  The master merges them into evidence/<id>.json and prints the outcome:

exit 0   the property held on everything generated
exit 1   ``VIOLATION property=<id> replay=<path>``; the replay holds the shrunk case
exit 2   the check itself failed (never reported as a violation)
"""

import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_SECONDS = float(os.environ.get("PBT_SHRINK", 45.0))
CASE_SECONDS, CASE_WAIT = 240, 600  # of the processor; of the clock


class Violation(AssertionError):
    """The property is broken by the code under test."""


class StopRun(BaseException):
    """Leaves hypothesis without giving it a chance to swallow or retry."""


class CaseTimeout(BaseException):
    pass


def fail(message):
    raise Violation(message)


def check(condition, message):
    if not condition:
        raise Violation(message() if callable(message) else message)


class Ctx:
    """Collects what a single case was like."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        for name in names:
            self.labels.append(str(name))

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)


class Test:
    def __init__(self, name, strategy, body, quick, thorough=None, shards=None):
        self.name = name
        self.strategy = strategy  # callable returning a hypothesis strategy of JSON-able cases
        self.body = body  # callable(case, ctx)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards  # optional: run only in these shards


class Finding:
    """A recorded defect: ``reproduce`` returns True when it is still there."""

    def __init__(self, key, reproduce):
        self.key = key
        self.reproduce = reproduce


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def comes_from_code_under_test(error):
    """True if the exception was raised while executing a frame of /repo/conmech."""
    for frame in traceback.extract_tb(error.__traceback__):
        name = frame.filename.replace("\\", "/")
        if "/conmech/" in name and "/verif/" not in name:
            return True
    return False


def load(prop):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def derive_seed(seed, *parts):
    text = "|".join(str(p) for p in (seed, *parts))
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def short(error, limit=600):
    text = f"{type(error).__name__}: {error}"
    return text if len(text) <= limit else text[:limit] + "..."


def _alarm(*_):
    raise CaseTimeout()


@contextlib.contextmanager
def quiet():
    """The code under test prints progress; keep the output of the check clean."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def run_case(test, case, ctx):
    """Runs the body; turns crashes of the code under test on valid input into violations."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_WAIT)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        with quiet():
            test.body(case, ctx)
    except Violation:
        raise
    except CaseTimeout as error:
        raise Violation(f"no result within {CASE_SECONDS} s (typical: below 1 s)") from error
    except Exception as error:  # pylint: disable=broad-except
        if comes_from_code_under_test(error):
            where = [
                f"{os.path.basename(f.filename)}:{f.name}"
                for f in traceback.extract_tb(error.__traceback__)
                if "/conmech/" in f.filename
            ]
            raise Violation(f"raised on valid input: {short(error)} at {where[-3:]}") from error
        if isinstance(error, (ValueError, IndexError, ArithmeticError)):
            # e.g. a result of another shape than the oracle expects
            frame = traceback.extract_tb(error.__traceback__)[-1]
            raise Violation(
                f"the result makes no sense to the oracle: {short(error)} "
                f"at {os.path.basename(frame.filename)}:{frame.name}"
            ) from error
        raise
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_test(test, seed, examples, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {
        "evaluations": 0,
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "failure": None,
        "stopped_early": False,
    }
    seen = set()
    state = {"first_failure": None, "best": None}

    def wrapped(case):
        now = time.time()
        if state["first_failure"] is None and now > deadline:
            stats["stopped_early"] = True
            raise StopRun()
        if state["first_failure"] is not None and now - state["first_failure"] > SHRINK_SECONDS:
            raise StopRun()
        ctx = Ctx()
        try:
            run_case(test, case, ctx)
        except Violation as error:
            if state["first_failure"] is None:
                state["first_failure"] = time.time()
            text = canonical(case)
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, str(error))
            raise
        finally:
            if state["first_failure"] is None:
                stats["evaluations"] += 1
                digest = hashlib.sha1(canonical(case).encode()).hexdigest()[:16]
                if ctx.is_nontrivial and digest not in seen:
                    seen.add(digest)
                    stats["nontrivial"].append(digest)
                    if len(stats["samples"]) < 2 and len(canonical(case)) < 4000:
                        stats["samples"].append({"test": test.name, "case": case})
                for name in set(ctx.labels):
                    stats["labels"][name] = stats["labels"].get(name, 0) + 1

    prop = hypothesis.seed(seed)(
        settings(
            max_examples=examples,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )(given(test.strategy())(wrapped))
    )
    try:
        with quiet():
            prop()
    except StopRun:
        pass
    except Violation:
        pass
    except Exception as error:  # pylint: disable=broad-except
        if state["best"] is None:
            raise
        # e.g. hypothesis Flaky after a violation: keep the violation, say so
        state["best"] = (state["best"][0], state["best"][1] + f" [{type(error).__name__}]")
    if state["best"] is not None:
        stats["failure"] = {
            "test": test.name,
            "case": json.loads(state["best"][0]),
            "message": state["best"][1],
        }
    return stats


def worker(prop, shard, shards, tier, seed, out):
    module = load(prop)
    started = time.time()
    budget = float(os.environ.get("PBT_BUDGET", 420 if tier == "quick" else 3 * 3600))
    result = {"tests": {}, "known": [], "error": None, "failure": None}
    try:
        if hasattr(module, "prepare"):
            with quiet():
                module.prepare()
        for test in module.TESTS:
            active = list(test.shards(shards)) if test.shards else list(range(shards))
            if shard not in active:
                continue
            total = test.quick if tier == "quick" else test.thorough
            examples = max(1, -(-total // len(active)))
            stats = run_test(
                test, derive_seed(seed, prop, test.name, shard), examples, started + budget
            )
            result["tests"][test.name] = stats
            if stats["failure"]:
                result["failure"] = stats["failure"]
                break
        if shard == 0:
            for finding in getattr(module, "FINDINGS", []):
                try:
                    with quiet():
                        present = bool(finding.reproduce())
                except Exception:  # pylint: disable=broad-except
                    present = False
                result["known"].append([finding.key, present])
    except Exception:  # pylint: disable=broad-except
        result["error"] = traceback.format_exc()
    with open(out, "w", encoding="utf8") as file:
        json.dump(result, file)


def known_findings(prop):
    entries = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path, encoding="utf8") as file:
            for line in file:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry.get("property") == prop and entry.get("status") == "known":
                        entries.append(entry)
    return entries


def master(prop, tier, seed):
    module = load(prop)
    started = time.time()
    shards = getattr(module, "SHARDS", 4)
    scratch = tempfile.mkdtemp(prefix="pbt-")
    procs = []
    for shard in range(shards):
        out = os.path.join(scratch, f"{shard}.json")
        log = open(os.path.join(scratch, f"{shard}.log"), "w", encoding="utf8")
        cmd = [sys.executable, "-W", "ignore", "-m", "pbt", prop, "--worker", str(shard)]
        cmd += ["--shards", str(shards), "--tier", tier, "--seed", str(seed), "--out", out]
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, cwd=VERIF), out, log))
    results, errors = [], []
    cut_short = wait_for(procs)
    for shard, (proc, out, log) in enumerate(procs):
        log.close()
        if not os.path.exists(out):
            if shard in cut_short:
                continue
            with open(log.name, encoding="utf8") as file:
                errors.append(f"shard {shard} died ({proc.returncode}): {file.read()[-3000:]}")
            continue
        with open(out, encoding="utf8") as file:
            results.append(json.load(file))
        if results[-1]["error"]:
            errors.append(f"shard {shard}: {results[-1]['error']}")
    subprocess.run(["rm", "-rf", "--", scratch], check=False)

    failures = [r["failure"] for r in results if r["failure"]]
    per_test, distinct, samples, evaluations = {}, set(), [], 0
    for result in results:
        for name, stats in result["tests"].items():
            entry = per_test.setdefault(
                name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}}
            )
            entry["evaluations"] += stats["evaluations"]
            evaluations += stats["evaluations"]
            new = {f"{name}:{d}" for d in stats["nontrivial"]} - distinct
            distinct |= new
            entry["distinct_nontrivial"] += len(new)
            for label, count in stats["labels"].items():
                entry["labels"][label] = entry["labels"].get(label, 0) + count
            if stats["stopped_early"]:
                entry["stopped_by_time_budget"] = True
            have = sum(1 for s in samples if s["test"] == name)
            samples.extend(stats["samples"][: max(0, 2 - have)])
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples[:12],
            "per_test": per_test,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - started, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path, "w", encoding="utf8") as file:
        json.dump(evidence, file, indent=1)

    if failures:
        failure = min(failures, key=lambda f: len(canonical(f["case"])))
        replay = write_replay(prop, failure)
        print(f"{prop}: {failure['test']}: {failure['message']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print(f"{prop}: the check itself failed", file=sys.stderr)
        return 2
    still = dict(tuple(k) for r in results for k in r["known"])
    for entry in known_findings(prop):
        if still.get(entry["key"], False):
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    print(
        f"{prop} [{tier}, seed {seed}]: held on {evaluations} cases "
        f"({len(distinct)} distinct non-trivial) in {evidence['wall_s']} s"
    )
    return 0


def wait_for(procs):
    """Waits for all workers; once one has reported a violation, stops the others."""
    cut_short = set()
    while any(proc.poll() is None for proc, *_ in procs):
        time.sleep(0.2)
        for proc, out, _ in procs:
            if proc.poll() is None or not os.path.exists(out):
                continue
            with open(out, encoding="utf8") as file:
                failed = json.load(file)["failure"]
            if failed:
                for shard, (other, *_) in enumerate(procs):
                    if other.poll() is None:
                        other.kill()
                        other.wait()
                        cut_short.add(shard)
    return cut_short


def write_replay(prop, failure):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    digest = hashlib.sha1(canonical(failure["case"]).encode()).hexdigest()[:10]
    path = os.path.join(folder, f"{prop}-{failure['test']}-{digest}.json")
    with open(path, "w", encoding="utf8") as file:
        json.dump({"property": prop, **failure}, file, indent=1)
    return path


def replay(prop, path):
    """Runs one saved case, without hypothesis."""
    with open(path, encoding="utf8") as file:
        data = json.load(file)
    module = load(prop)
    if hasattr(module, "prepare"):
        with quiet():
            module.prepare()
    test = next(t for t in module.TESTS if t.name == data["test"])
    try:
        run_case(test, data["case"], Ctx())
    except Violation as error:
        print(f"{prop}: {test.name}: {error}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: the saved case holds")
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--replay")
    parser.add_argument("--worker", type=int)
    parser.add_argument("--shards", type=int, default=1)
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    parser.add_argument("--out")
    args = parser.parse_args()
    if args.worker is not None:
        worker(args.prop, args.worker, args.shards, args.tier, args.seed, args.out)
        return 0
    if args.replay:
        return replay(args.prop, args.replay)
    return master(args.prop, args.tier, args.seed)
