"""Recording behaviours of the implementation and validating them in Quint.

A generator module of the specification chooses commands; a driver executes them
on the real library and reports what it has observed; the resulting events are
written into a Quint module that runs the specification's exec() on each of them
and fails when the specification cannot explain a report."""
import json
import os
import pathlib
import re
import select
import subprocess
import sys
import uuid

from . import quint

CHUNK = 24
sys.set_int_max_str_digits(0)

# The numbers of an event are packed into a single literal: most of the time that
# Quint spends on a module is spent on parsing and typing its literals.
TEMPLATE = """module trace_%(id)s {
  import %(module)s.* from "%(spec)s"
%(chunks)s
  pure val chunks_: List[List[(str, int, int, int, int)]] = List(%(names)s)
  // the n numbers that have been packed into an integer, as digits in the given base
  pure def unpack_(n: int, base: int, packed: int): (List[int], int) =
    range(0, n).foldl((List(), packed), (acc, k) => (acc._1.append(acc._2 %% base - base / 2), acc._2 / base))
  var cur: { st: St, err: str }
  var failed: List[(int, str)]
  var i: int
  action init = all { cur' = { st: start, err: "" }, failed' = [], i' = 0 }
  action step = all {
    i < chunks_.length(),
    val acc = chunks_[i].foldl(({ st: cur.st, err: "" }, 0, failed), (acc, ev) =>
      if (ev._1 == "reset") ({ st: start, err: "" }, acc._2 + 1, acc._3)
      else {
        val args = unpack_(ev._3, ev._2, ev._5)
        val report = unpack_(ev._4, ev._2, args._2)
        val res = exec(acc._1.st, ev._1, args._1, report._1)
        (res, acc._2 + 1, if (res.err == "") acc._3 else acc._3.append((i * %(chunk)d + acc._2, res.err)))
      })
    all { cur' = acc._1, failed' = acc._3, i' = i + 1 }
  }
  // stop early when there is nothing but failures
  val explained = failed.length() < 200
}
"""


def pack(args, report):
    """The numbers as the digits of a single integer; see unpack_ in the template."""
    numbers = args + report
    base = 2 ** (max([x.bit_length() for x in numbers] + [2]) + 1)
    packed = 0
    for x in reversed(numbers):
        packed = packed * base + (x + base // 2)
    return "%d, %d, %d, %d" % (base, len(args), len(report), packed)


class Hang(Exception):
    pass


def run_driver(driver, commands, timeout=600, env=None):
    """Feed all the commands; returns (reports, how the process ended)."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([str(driver)], input="".join(c + "\n" for c in commands), capture_output=True, text=True, timeout=timeout, env=e)
    out = p.stdout.split("\n")[:-1]
    end = "" if p.returncode == 0 else "the process ended with status %s: %s" % (p.returncode, (p.stderr.strip() or "-")[-600:])
    return out, end


def command(op, args):
    return " ".join([op] + [str(a) for a in args])


def validate(module, spec, events, work, timeout=900):
    """Check events [(op, args, report)] against exec() of the specification;
    returns [(index of an event that cannot be explained, why)]."""
    work = pathlib.Path(work)
    work.mkdir(parents=True, exist_ok=True)
    ident = uuid.uuid4().hex[:8]
    chunks = [events[k:k + CHUNK] for k in range(0, len(events), CHUNK)]
    text = "\n".join("  pure val c%d_: List[(str, int, int, int, int)] = List(%s)" % (k, ",\n    ".join('("%s", %s)' % (op, pack(a, r)) for op, a, r in c)) for k, c in enumerate(chunks))
    f = work / ("trace_%s.qnt" % ident)
    f.write_text(TEMPLATE % {"id": ident, "module": module, "spec": os.path.relpath(quint.SPEC / spec.replace(".qnt", ""), work), "chunks": text, "names": ", ".join("c%d_" % k for k in range(len(chunks))), "chunk": CHUNK})
    itf = work / ("trace_%s.itf.json" % ident)
    cmd = ["quint", "run", str(f), "--backend", "typescript", "--main", "trace_" + ident, "--max-samples", "1", "--n-traces", "1", "--max-steps", str(len(chunks)),
           "--invariant", "explained", "--verbosity", "1", "--out-itf", str(itf)]
    p = subprocess.run(cmd, capture_output=True, text=True, env=quint._env(), timeout=timeout, cwd=work)
    if not itf.exists():
        raise quint.SpecError("%s\n%s\n%s" % (" ".join(cmd), p.stdout[-3000:], p.stderr[-3000:]))
    states = json.loads(itf.read_text())["states"]
    last = quint.decode({k: v for k, v in states[-1].items() if k.split("::")[-1] in ("failed", "i")})
    itf.unlink()
    bad = [(int(k), why) for k, why in last["failed"]]
    if last["i"] != len(chunks) and len(bad) < 200:
        raise quint.SpecError("the trace has not been processed completely: %s of %s\n%s" % (last["i"], len(chunks), p.stdout[-2000:] + p.stderr[-2000:]))
    f.unlink()
    return bad


def conform(driver, module, spec, traces, work, env=None, twice=False):
    """Execute behaviours (lists of (op, args)) on the driver and validate the
    reports. With twice, every behaviour is repeated in another process, after a
    "restart", with a different prehistory. Returns (events, failures)."""
    flat = []
    for t in traces:
        flat.append(("reset", []))
        flat.extend((op, a) for op, a in t if op != "reset")
    commands = [command(op, a) for op, a in flat]
    out, end = run_driver(driver, commands, env=env)
    out2, end2 = (None, "")
    if twice:
        out2, end2 = run_driver(driver, commands, env=dict(env or {}, VERIF_PREHISTORY="1"))

    def since_reset(k):
        b = k
        while flat[b][0] != "reset":
            b -= 1
        return commands[b:k + 1]

    failures = []
    events = []
    where = []

    def collect(out, end, lo, hi):
        """Append the events for the commands lo..hi; false if they broke off."""
        for k in range(lo, hi):
            op, a = flat[k]
            if k >= len(out):
                failures.append({"trace": since_reset(k), "why": "the command does not return", "observed": end or "no answer", "op": op})
                return False
            if out[k].startswith("!"):
                failures.append({"trace": since_reset(k), "why": "unexpected exception", "observed": out[k], "op": op})
                return True
            if op == "reset" and k == lo:
                continue
            events.append((op, a, [int(x) for x in out[k].split()]))
            where.append((k, out is out2))
        return True

    bounds = [k for k, (op, _) in enumerate(flat) if op == "reset"] + [len(flat)]
    for lo, hi in zip(bounds, bounds[1:]):
        events.append(("reset", [], []))
        where.append((lo, False))
        if not collect(out, end, lo, hi):
            break
        if twice:
            events.append(("restart", [], []))
            where.append((lo, True))
            if not collect(out2, end2, lo, hi):
                break
    else:
        if (end or end2) and not failures:
            failures.append({"trace": commands[-1:], "why": "the process fails at exit", "observed": end or end2, "op": "exit"})
    for k, why in validate(module, spec, events, work) if events else []:
        c, second = where[k]
        trace = since_reset(c)
        failures.append({"trace": trace, "why": why, "observed": (out2 if second else out)[c].strip() + (" (in a second process)" if second else ""), "op": flat[c][0]})
    return len(events), failures


def corrupt(rng, events):
    """A copy of the events with one report changed; for self tests."""
    k = rng.choice([k for k, e in enumerate(events) if e[2]])
    op, a, r = events[k]
    j = rng.randrange(len(r))
    r = r[:j] + [r[j] + rng.choice([-1, 1])] + r[j + 1:]
    return events[:k] + [(op, a, r)] + events[k + 1:], k
