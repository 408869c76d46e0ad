"""Runs one check:  /verif/run.py <PID> [--tier quick|thorough] [--replay FILE]

The parent starts one worker process per core; every worker explores its own share of the fixed cases and of
the randomly generated ones (Hypothesis, seeded from VERIF_SEED and the shard number).
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = HERE
sys.path.insert(0, VERIF)

from pbt import env  # noqa: E402
from pbt import core  # noqa: E402

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def load_check(pid):
    env.setup()
    import nosnoc
    path = os.path.realpath(nosnoc.__file__)
    if not path.startswith(os.path.realpath(env.REPO) + os.sep):
        raise RuntimeError(f"code under test imported from {path}, not from {env.REPO}")
    return importlib.import_module(f"pbt.checks.{pid.lower()}")


def shard_seed(seed, pid, shard):
    return int.from_bytes(hashlib.sha256(f"{seed}:{pid}:{shard}".encode()).digest()[:6], "big")


def run_check(check, spec, ctx):
    """The oracles only use documented structures and valid inputs: where they cannot make sense of what the code under
    test produced (missing entries, wrong shapes, wrong types), that is a violation as well."""
    try:
        check.check(spec, ctx)
    except (core.Violation, core.Inconclusive, core.Inapplicable):
        raise
    except (ArithmeticError, AttributeError, LookupError, RuntimeError, TypeError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise core.Violation(f"what was produced has an unexpected structure: {type(e).__name__}: {str(e)[:300]} "
                             f"({os.path.basename(tb.filename)}:{tb.lineno})") from e


# ------------------------------------------------------------------------------------------- worker
class StopShrinking(BaseException):
    pass


class Worker:

    def __init__(self, check, out, deadline, shrink_budget, current):
        self.check = check
        self.out = out
        self.deadline = deadline
        self.shrink_budget = shrink_budget
        self.current = current
        self.n = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.inconclusive = 0
        self.inapplicable = 0
        self.skipped = 0
        self.solves = 0
        self.solved = 0
        self.unsolved = []
        self.best = None
        self.first_failure_at = None
        self.after_failure = 0

    def run_case(self, spec, raise_violation=True):
        if self.first_failure_at is not None:
            self.after_failure += 1
            if self.after_failure > self.shrink_budget[0] or time.time() - self.first_failure_at > self.shrink_budget[1]:
                raise StopShrinking()
        elif time.time() > self.deadline:
            self.skipped += 1
            return
        key = core.digest(spec)
        with open(self.current, "w") as f:
            f.write(core.dumps(spec))
        ctx = core.Ctx()
        self.n += 1
        try:
            run_check(self.check, spec, ctx)
        except core.Inconclusive:
            self.inconclusive += 1
            self.labels["inconclusive"] = self.labels.get("inconclusive", 0) + 1
            if len(self.unsolved) < 200:
                self.unsolved.append(spec)
        except core.Inapplicable:
            self.inapplicable += 1
        except core.Violation as v:
            if self.first_failure_at is None:
                self.first_failure_at = time.time()
            if self.best is None or len(core.dumps(spec)) < len(core.dumps(self.best[0])):
                self.best = (spec, str(v))
            if raise_violation:
                raise
        self.solves += ctx.solves
        self.solved += ctx.solved
        self.seen.add(key)
        if ctx.nontrivial and key not in self.nontrivial:
            self.nontrivial.add(key)
            if len(self.samples) < 3 or (len(self.samples) < 6 and self.n % 17 == 0):
                self.samples.append(spec)
        for lab in ctx.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1

    def dump(self):
        json.dump(dict(n=self.n, seen=sorted(self.seen), nontrivial=sorted(self.nontrivial), labels=self.labels,
                       samples=self.samples, inconclusive=self.inconclusive, inapplicable=self.inapplicable,
                       skipped=self.skipped, solves=self.solves, solved=self.solved, unsolved=self.unsolved,
                       best=self.best), open(self.out, "w"))


def worker_main(args):
    check = load_check(args.pid)
    from hypothesis import HealthCheck, Phase, given, reject, seed, settings

    budget = check.BUDGET[args.tier]
    w = Worker(check, args.out, time.time() + budget["seconds"], budget.get("shrink", (400, 60)), args.current)
    fixed = list(check.fixed_cases(args.tier)) if hasattr(check, "fixed_cases") else []
    try:
        for i, spec in enumerate(fixed):
            if i % args.shards == args.shard:
                w.run_case(spec, raise_violation=False)
                if w.best is not None:
                    break
        n = -(-budget["cases"] // args.shards)
        if w.best is None and n > 0:
            w.samples = w.samples[:1]

            @seed(shard_seed(args.seed, args.pid, args.shard))
            @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
            @given(check.strategy(args.tier))
            def test(spec):
                if w.first_failure_at is None and core.digest(spec) in w.seen:
                    reject()
                w.run_case(spec)

            test()
    except StopShrinking:
        pass
    except BaseException:
        # Hypothesis re-raises the violation (or reports flakiness); only the recorded case counts
        if w.best is None:
            raise
    w.dump()


# ------------------------------------------------------------------------------------------- parent
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path))["findings"] if e["property"] == pid]


def write_replay(pid, spec, msg, kind="case"):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{core.digest(spec)}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, kind=kind, message=msg, spec=spec), f, indent=1)
    return path


def run_isolated(pid, spec, timeout):
    """Returns (kind, message), kind in ok / violation / error / crash / hang."""
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "spec.json")
        json.dump(dict(property=pid, kind="case", spec=spec), open(f, "w"))
        try:
            r = subprocess.run([PY, os.path.abspath(__file__), pid, "--replay", f, "--child"],
                               capture_output=True, text=True, timeout=timeout, env=child_env(tmp))
        except subprocess.TimeoutExpired:
            return "hang", f"no answer within {timeout} s"
        if r.returncode < 0:
            return "crash", f"process ended by signal {-r.returncode}"
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            return "violation", r.stdout.strip().splitlines()[-1]
        if r.returncode == 0:
            return "ok", ""
        return "error", r.stderr[-2000:]


def child_env(tmp):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", LC_ALL="C.UTF-8",
             PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), TMPDIR=tmp,
             PYTHONWARNINGS="ignore")
    for k in ("PYTHONPATH", "PYTHONHOME"):
        e.pop(k, None)
    return e


def replay(args):
    data = json.load(open(args.replay))
    check = load_check(args.pid)
    specs = data["spec"] if data.get("kind") == "batch" else [data["spec"]]
    if data.get("kind") == "batch":
        solved = solves = 0
        for s in specs:
            ctx = core.Ctx()
            try:
                run_check(check, s, ctx)
            except core.Inconclusive:
                pass
            solves += ctx.solves
            solved += ctx.solved
        share = importlib.import_module("pbt.checks.meta").META[args.pid]["min_solved"]
        print(f"{solved} of {solves} solves succeeded; required share {share}")
        if solves and solved / solves < share:
            print(f"VIOLATION property={args.pid} replay={args.replay}")
            return 1
        return 0
    for s in specs:
        try:
            run_check(check, s, core.Ctx())
        except core.Violation as v:
            print(f"{v}")
            print(f"VIOLATION property={args.pid} replay={args.replay}")
            return 1
        except (core.Inconclusive, core.Inapplicable) as e:
            print(f"{type(e).__name__}: {e}")
    print(f"property {args.pid} holds on this case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--child", action="store_true")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--out")
    ap.add_argument("--current")
    args = ap.parse_args()
    os.environ.setdefault("MPLBACKEND", "Agg")
    if args.worker:
        worker_main(args)
        return 0
    if args.replay:
        if args.child:
            with core.quiet():
                pass
        return replay(args)
    return parent(args)


def parent(args):
    t0 = time.time()
    pid = args.pid
    meta = importlib.import_module(f"pbt.checks.meta").META[pid]
    tmp = tempfile.mkdtemp(prefix=f"pbt-{pid}-")
    try:
        return _parent(args, pid, meta, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _parent(args, pid, meta, tmp, t0):
    shards = min(os.cpu_count() or 4, 8)
    procs = []
    limit = meta["limit"][args.tier]
    for i in range(shards):
        out = os.path.join(tmp, f"out{i}.json")
        cur = os.path.join(tmp, f"cur{i}.json")
        log = open(os.path.join(tmp, f"log{i}.txt"), "w")
        cmd = [PY, os.path.abspath(__file__), pid, "--worker", "--tier", args.tier, "--seed", str(args.seed),
               "--shard", str(i), "--shards", str(shards), "--out", out, "--current", cur]
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=tmp, env=child_env(tmp),
                                       start_new_session=True), out, cur, log.name))
    end = time.time() + limit
    hung = set()
    for p, _, _, _ in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            hung.add(p.pid)
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    results, failures = [], []
    errors = []
    for p, out, cur, log in procs:
        if os.path.exists(out):
            results.append(json.load(open(out)))
            continue
        if p.pid in hung:
            continue
        tail = open(log, errors="replace").read()[-3000:]
        if os.path.exists(cur):
            try:
                spec = json.load(open(cur))
            except ValueError:
                spec = None
            if spec is not None and p.returncode is not None and p.returncode < 0:
                kind, msg = run_isolated(pid, spec, 120)
                if kind in ("crash", "violation"):
                    failures.append((spec, f"{kind}: {msg}"))
                    continue
        errors.append(f"worker exit {p.returncode}: {tail}")
    for r in results:
        if r["best"]:
            failures.append(tuple(r["best"]))

    agg = dict(n=sum(r["n"] for r in results), inconclusive=sum(r["inconclusive"] for r in results),
               inapplicable=sum(r["inapplicable"] for r in results), skipped=sum(r["skipped"] for r in results),
               solves=sum(r["solves"] for r in results), solved=sum(r["solved"] for r in results))
    seen = set().union(*[set(r["seen"]) for r in results]) if results else set()
    nontrivial = set().union(*[set(r["nontrivial"]) for r in results]) if results else set()
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]][:6]

    # known findings: identified by the exact failing case
    known = {e["case"]: e for e in known_findings(pid)}
    unlisted = []
    for spec, msg in failures:
        if core.digest(spec) in known:
            continue
        unlisted.append((spec, msg))
    for e in known.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")

    min_solved = meta.get("min_solved")
    batch = None
    if not unlisted and not errors and min_solved and agg["solves"] >= 20 and \
            agg["solved"] / agg["solves"] < min_solved:
        specs = [s for r in results for s in r["unsolved"]]
        batch = (specs[:40], f"only {agg['solved']} of {agg['solves']} solves succeeded on problems the solver is "
                             f"expected to handle (required share {min_solved})")

    evidence = dict(
        property=pid, tier=args.tier, seed=args.seed, level="exploration",
        coverage=dict(evaluations=agg["n"], distinct=len(seen), distinct_nontrivial=len(nontrivial),
                      rule=meta["rule"], samples=samples, labels=dict(sorted(labels.items())),
                      inconclusive=agg["inconclusive"], inapplicable=agg["inapplicable"],
                      skipped_after_time_budget=agg["skipped"], solves=agg["solves"], solved=agg["solved"],
                      shards=shards, shards_stopped=len(hung)),
        assumptions=meta.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(unlisted) + (1 if batch else 0))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(f"{pid} [{args.tier}, seed {args.seed}]: {agg['n']} cases, {len(nontrivial)} distinct non-trivial, "
          f"{agg['inconclusive']} inconclusive, {agg['skipped']} skipped, {evidence['wall_s']} s")
    if unlisted:
        unlisted.sort(key=lambda e: len(core.dumps(e[0])))
        spec, msg = unlisted[0]
        path = write_replay(pid, spec, msg)
        print(f"  {msg}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if batch:
        path = write_replay(pid, batch[0], batch[1], kind="batch")
        print(f"  {batch[1]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if hung:
        # a single case (one call of the NLP solver cannot be interrupted) took too long: what the other workers explored counts
        print(f"{len(hung)} of {shards} workers stopped at the time limit of {limit} s")
    if errors or len(hung) > shards // 2:
        print(f"ERROR in {len(errors)} workers, hung: {len(hung)}: " + (errors[0] if errors else ""), file=sys.stderr)
        return 2
    if agg["n"] == 0 or (agg["n"] >= 50 and len(nontrivial) < 0.02 * agg["n"]):
        print("ERROR the run explored (almost) nothing", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
