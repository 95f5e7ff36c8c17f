"""Runs the check of one property and reports.

Usage: check.py PROPERTY [quick|thorough]
       check.py --replay FILE"""
import collections
import concurrent.futures
import hashlib
import json
import os
import pathlib
import re
import shutil
import sys
import tempfile
import time
import traceback

from . import arf, build, quint, trace
from .build import VERIF

FINDINGS = VERIF / "known-findings.txt"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.started = time.time()
        self.work = pathlib.Path(tempfile.mkdtemp(prefix="verif-%s-" % prop))
        self.failures = []
        self.foreign = collections.Counter()
        self.ops = collections.Counter()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}

    def derive(self, *key):
        return int.from_bytes(hashlib.sha256(repr((self.seed, self.prop) + key).encode()).digest()[:6], "big")

    def elapsed(self):
        return time.time() - self.started


def pooled(ctx, jobs, budget):
    """Run the jobs (callables without arguments) in parallel. Jobs that have not
    been started when the time is up or once there are violations are skipped."""
    done = 0
    skipped = 0

    def guarded(job):
        if ctx.elapsed() > budget or len(ctx.failures) >= 40:
            return None
        return job()

    with concurrent.futures.ThreadPoolExecutor(quint.JOBS) as pool:
        for result in pool.map(guarded, jobs):
            if result is None:
                skipped += 1
            else:
                done += 1
                yield result
    ctx.extra["jobs"] = ctx.extra.get("jobs", 0) + done
    if skipped:
        ctx.extra["jobs_skipped_for_lack_of_time"] = ctx.extra.get("jobs_skipped_for_lack_of_time", 0) + skipped


class Replay:
    """Deterministic components: step the implementation through behaviours of
    the specification and compare the complete state after every step."""

    def __init__(self, spec, main, driver, quick, thorough, ops=None, invariant="sane", traces=20, steps=100):
        self.__dict__.update(locals())

    def run(self, ctx, budget):
        drv = build.driver(self.driver)

        def job(k):
            work = ctx.work / ("%s%d" % (self.main, k))
            # the invariant is a property of the specification: a few runs suffice
            traces = quint.simulate(self.spec, self.main, ctx.derive(self.main, k), self.traces, self.steps, work, invariant=self.invariant if k < 4 else None, fields=("regs", "cmd", "out"))
            n, failures = arf.replay(drv, traces)
            shutil.rmtree(work, ignore_errors=True)
            return traces, n, failures

        for traces, n, failures in pooled(ctx, [lambda k=k: job(k) for k in range(self.quick if ctx.quick else self.thorough)], budget):
            ctx.states += sum(len(t) for t in traces)
            ctx.transitions += n
            ctx.traces += len(traces)
            for t in traces:
                ctx.ops.update(s["cmd"]["op"] for s in t)
            if len(ctx.samples) < 3:
                ctx.samples.append([arf.command(s["cmd"]) for s in traces[0][:6]])
            for f in failures:
                if self.ops is not None and f["op"] not in self.ops and "|" in f["observed"]:
                    ctx.foreign["%s: %s" % (f["op"], f["why"][:20])] += 1
                else:
                    ctx.failures.append(dict(f, kind="replay", driver=self.driver))


class Conform:
    """Approximate components: behaviours of the implementation are recorded and
    validated against the specification."""

    def __init__(self, spec, module, main, driver, quick, thorough, why=None, invariant="sane", traces=36, steps=100, twice=False):
        self.__dict__.update(locals())

    def run(self, ctx, budget):
        drv = build.driver(self.driver)

        def job(k):
            work = ctx.work / ("%s%d" % (self.main, k))
            # the invariant is a property of the specification: a few runs suffice
            count = max(2, self.traces // 12) if k == 0 else self.traces
            traces = quint.simulate(self.spec, self.main, ctx.derive(self.main, k), count, self.steps, work, invariant=self.invariant if k == 0 else None, fields=("op", "args"))
            traces = [[(s["op"], s["args"]) for s in t] for t in traces]
            n, failures = trace.conform(drv, self.module, self.spec, traces, work, twice=self.twice and k % 2 == 0)
            shutil.rmtree(work, ignore_errors=True)
            return traces, n, failures

        for traces, n, failures in pooled(ctx, [lambda k=k: job(k) for k in range(self.quick if ctx.quick else self.thorough)], budget):
            ctx.states += sum(len(t) for t in traces) + n
            ctx.transitions += n
            ctx.traces += len(traces)
            for t in traces:
                ctx.ops.update(op for op, _ in t)
            if len(ctx.samples) < 3:
                ctx.samples.append([trace.command(op, a) for op, a in traces[0][:8]])
            for f in failures:
                if self.why is not None and f["why"] not in self.why and f["why"] not in ("the command does not return", "unexpected exception"):
                    ctx.foreign[f["why"]] += 1
                else:
                    ctx.failures.append(dict(f, kind="conform", driver=self.driver, module=self.module, spec=self.spec))


class Sanitized:
    """Behaviours of the specification are executed by a driver that has been built
    with sanitizers, which monitor what is not visible in its reports: accesses to
    memory, leaks, undefined behaviour, data races."""

    FLAGS = {
        "asan": ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"),
        "tsan": ("-fsanitize=thread",),
    }

    def __init__(self, spec, main, driver, quick, thorough, flavour="asan", leaks=True, replay=False, traces=36, steps=100):
        self.__dict__.update(locals())

    def env(self, leaks):
        return {"ASAN_OPTIONS": "detect_leaks=%d:exitcode=99:allocator_may_return_null=1" % leaks, "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "exitcode=99:halt_on_error=1"}

    def run(self, ctx, budget):
        drv = build.driver(self.driver, self.flavour, self.FLAGS[self.flavour])
        # the sandbox might not allow what the sanitizers need
        env = None
        for leaks in ([1, 0] if self.leaks else [0]):
            if trace.run_driver(drv, [], env=self.env(leaks))[1] == "":
                env = self.env(leaks)
                break
        if env is None or (self.leaks and not leaks):
            ctx.extra.setdefault("not_available", []).append("%s for %s" % ("the leak sanitizer" if env else self.flavour, self.driver))
        if env is None:
            return

        def job(k):
            work = ctx.work / ("%s%d" % (self.main, k))
            traces = quint.simulate(self.spec, self.main, ctx.derive(self.main, k), self.traces, self.steps, work, fields=("regs", "cmd", "out") if self.replay else ("op", "args"))
            shutil.rmtree(work, ignore_errors=True)
            if self.replay:
                traces = [[(s["cmd"]["op"], arf.command(s["cmd"])) for s in t] for t in traces]
            else:
                traces = [[("reset", "reset")] + [(s["op"], trace.command(s["op"], s["args"])) for s in t if s["op"] != "reset"] for t in traces]
            lines = [c for t in traces for _, c in t]
            out, end = trace.run_driver(drv, lines, env=env)
            failures = []
            if end:
                bad = None
                if len(out) < len(lines):
                    # the behaviour that has not been completed
                    pos = len(out)
                    for t in traces:
                        if pos < len(t):
                            bad = [c for _, c in t[:pos + 1]]
                            break
                        pos -= len(t)
                else:
                    for t in traces:
                        end1 = trace.run_driver(drv, [c for _, c in t], env=env)[1]
                        if end1:
                            bad, end = [c for _, c in t], end1
                            break
                bad = bad or lines
                failures.append({"trace": bad, "op": bad[-1].split()[0], "why": self.summary(end), "observed": end[-400:]})
            return traces, len(out), failures

        for traces, n, failures in pooled(ctx, [lambda k=k: job(k) for k in range(self.quick if ctx.quick else self.thorough)], budget):
            ctx.states += sum(len(t) for t in traces)
            ctx.transitions += n
            ctx.traces += len(traces)
            for t in traces:
                ctx.ops.update(op for op, _ in t)
            if len(ctx.samples) < 3:
                ctx.samples.append([c for _, c in traces[0][:8]])
            for f in failures:
                ctx.failures.append(dict(f, kind="sanitized", driver=self.driver, flavour=self.flavour, env=env))

    @staticmethod
    def summary(end):
        m = re.search(r"SUMMARY: (.*)", end) or re.search(r"runtime error: (.*)", end)
        return m.group(1) if m else "the process fails"


class Model:
    """A property of the specification alone, decided by Apalache."""

    def __init__(self, spec, main, invariant, steps=None, inductive=None, expect=True, thorough_only=False):
        self.__dict__.update(locals())

    def run(self, ctx, budget):
        if self.thorough_only and ctx.quick:
            return
        ok, text = quint.verify(self.spec, self.main, self.invariant, ctx.work / ("verify_" + self.main), steps=self.steps, inductive=self.inductive)
        ctx.extra.setdefault("models", []).append({"spec": self.spec, "main": self.main, "invariant": self.invariant, "inductive": self.inductive, "steps": self.steps, "holds": ok})
        if ok != self.expect:
            raise quint.SpecError("%s of %s: expected %s\n%s" % (self.invariant, self.main, self.expect, text[-2000:]))


def known_findings(prop):
    """The lines "known: property=ID {json: what identifies a failure} description"."""
    ret = []
    for line in FINDINGS.read_text().splitlines() if FINDINGS.exists() else []:
        if line.startswith("known: property=%s " % prop):
            rest = line.split(" ", 2)[2]
            match, end = json.JSONDecoder().raw_decode(rest)
            ret.append({"match": match, "what": rest[end:].strip()})
    return ret


def matches(finding, failure):
    return all(re.fullmatch(v, str(failure["trace"][-1] if k == "command" else failure.get(k))) for k, v in finding["match"].items())


def replay_file(path):
    f = json.loads(pathlib.Path(path).read_text())
    print("property: %s\nwhy:      %s\nobserved when recorded: %s" % (f["property"], f["why"], f["observed"]))
    print("\n".join(f["trace"]))
    if "driver" in f and f["kind"] in ("replay", "conform", "sanitized"):
        flavour = (f["flavour"], Sanitized.FLAGS[f["flavour"]]) if "flavour" in f else ()
        out, end = trace.run_driver(build.driver(f["driver"], *flavour), f["trace"], env=f.get("env"))
        print("--- observed now ---")
        print("\n".join(out[-3:]))
        if end:
            print(end)
    return 0


def main(argv):
    from .checks import CHECKS
    if argv[:1] == ["--replay"]:
        return replay_file(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    status = 0
    error = None
    try:
        budget = check.get("budget", (420, 2700))[0 if ctx.quick else 1]
        drivers = {(part.driver, part.flavour) for part in check["parts"] if isinstance(part, Sanitized)}
        if drivers:
            # these take long
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                list(pool.map(lambda d: build.driver(d[0], d[1], Sanitized.FLAGS[d[1]]), sorted(drivers)))
        for part in check["parts"]:
            part.run(ctx, budget)
    except (build.BuildError, quint.SpecError, Exception) as e:
        error = "%s: %s" % (type(e).__name__, e)
        if not isinstance(e, (build.BuildError, quint.SpecError)):
            traceback.print_exc()
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)

    findings = known_findings(prop)
    fresh = [f for f in ctx.failures if not any(matches(k, f) for k in findings)]
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    out = VERIF / "out" / prop
    shutil.rmtree(out, ignore_errors=True)
    reported = set()
    for f in fresh:
        key = (f["op"], f["why"] if f["kind"] != "replay" else "")
        if key in reported or len(reported) >= 5:
            continue
        reported.add(key)
        out.mkdir(parents=True, exist_ok=True)
        path = out / ("%d.json" % len(reported))
        path.write_text(json.dumps(dict(f, property=prop, seed=seed, tier=tier), indent=1))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s; observed: %s" % (f["trace"][-1][:200], f["why"][:300], f["observed"][:300]))
        status = 1
    if error and not status:
        print("ERROR property=%s %s" % (prop, error), file=sys.stderr)
        status = 2
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": check["level"],
        "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                     "events_by_command": dict(sorted(ctx.ops.items())), "samples": ctx.samples, **ctx.extra},
        "assumptions": check["assumptions"], "wall_s": round(ctx.elapsed(), 1), "violations": len(fresh),
    }
    if ctx.foreign:
        evidence["coverage"]["deviations_outside_of_this_property"] = dict(ctx.foreign)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(evidence, indent=1))
    print("%s: %s; %d events of %d behaviours in %.0f s" % (prop, "violated" if status == 1 else "error" if status else "held on everything explored", ctx.transitions, ctx.traces, ctx.elapsed()))
    return status
