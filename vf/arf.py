"""Replays behaviours of spec/arf.qnt into the real Arf class."""
from . import trace

FIELDS = ["op", "d", "a", "b", "c", "x", "o1", "o2", "o3", "p", "r", "p1", "r1", "i", "j"]


def command(cmd):
    if cmd["op"] == "init":
        cmd = dict(cmd, op="reset")
    words = [str(cmd[f]) if cmd[f] != "" else "-" for f in FIELDS] + [cmd["v"]["k"], str(cmd["v"]["m"]), str(cmd["v"]["e"])]
    return " ".join(words)


def show(v):
    return "%s %s %s" % (v["k"], v["m"], v["e"])


def expected(state):
    regs = state["regs"]
    return "".join(show(regs[i]) + ";" for i in range(len(regs))) + "|" + "".join(show(v) + ";" for v in state["out"])


def replay(driver, traces):
    """Replay; return (number of steps, failures)."""
    lines = [command(s["cmd"]) for t in traces for s in t]
    want = [expected(s) for t in traces for s in t]
    got, end = trace.run_driver(driver, lines)
    failures = []
    pos = 0
    for t in traces:
        for k, s in enumerate(t):
            here = {"trace": lines[pos - k:pos + 1], "op": s["cmd"]["op"], "why": "expected " + want[min(pos, len(want) - 1)]}
            if pos >= len(got):
                failures.append(dict(here, observed=end or "no answer"))
                return pos, failures
            if got[pos] != want[pos]:
                failures.append(dict(here, observed=got[pos]))
                pos += len(t) - k
                break
            pos += 1
    return pos, failures
