"""Running Quint: generating behaviours and validating recorded traces."""
import concurrent.futures
import json
import os
import pathlib
import re
import subprocess

from .build import VERIF

SPEC = VERIF / "spec"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class SpecError(Exception):
    """Quint itself failed, or a property of the specification does not hold."""


def decode(x):
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#map" in x:
            return {decode(k): decode(v) for k, v in x["#map"]}
        if "#tup" in x:
            return tuple(decode(v) for v in x["#tup"])
        if "#set" in x:
            return [decode(v) for v in x["#set"]]
        return {k.split("::")[-1]: decode(v) for k, v in x.items() if not k.startswith("#")}
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def _env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["NODE_OPTIONS"] = "--max-old-space-size=4096"
    return env


def simulate(spec, main, seed, traces, steps, work, invariant=None, timeout=600, init="init", step="step", fields=None):
    """One run of the simulator; returns the list of traces (lists of states)."""
    work = pathlib.Path(work)
    work.mkdir(parents=True, exist_ok=True)
    cmd = ["quint", "run", str(SPEC / spec), "--backend", "typescript", "--main", main, "--seed", hex(seed), "--max-samples", str(traces),
           "--n-traces", str(traces), "--max-steps", str(steps), "--verbosity", "1", "--init", init, "--step", step,
           "--out-itf", str(work / "t_{seq}.itf.json")]
    if invariant:
        cmd += ["--invariant", invariant]
    p = subprocess.run(cmd, capture_output=True, text=True, env=_env(), timeout=timeout, cwd=work)
    if p.returncode != 0:
        raise SpecError("%s\n%s\n%s" % (" ".join(cmd), p.stdout[-3000:], p.stderr[-3000:]))
    ret = []
    for f in sorted(work.glob("t_*.itf.json"), key=lambda f: int(re.search(r"t_(\d+)", f.name).group(1))):
        states = json.loads(f.read_text())["states"]
        if fields:
            states = [{k: v for k, v in s.items() if k.split("::")[-1] in fields} for s in states]
        ret.append([decode(s) for s in states])
        f.unlink()
    return ret


def simulate_many(jobs, n=None):
    """Run several simulate(**job) in parallel; yields (job, traces)."""
    with concurrent.futures.ThreadPoolExecutor(n or JOBS) as pool:
        futures = {pool.submit(simulate, **job): job for job in jobs}
        for future in concurrent.futures.as_completed(futures):
            yield futures[future], future.result()


def verify(spec, main, invariant, work, steps=None, inductive=None, timeout=900):
    """Decide an invariant with Apalache; returns (holds, output)."""
    work = pathlib.Path(work)
    work.mkdir(parents=True, exist_ok=True)
    import socket
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    cmd = ["quint", "verify", str(SPEC / spec), "--main", main, "--server-endpoint", "localhost:%d" % port, "--verbosity", "2"]
    if inductive:
        cmd += ["--inductive-invariant", inductive]
    if invariant:
        cmd += ["--invariant", invariant]
    if steps is not None:
        cmd += ["--max-steps", str(steps)]
    p = subprocess.run(cmd, capture_output=True, text=True, env=_env(), timeout=timeout, cwd=work)
    text = p.stdout + p.stderr
    if p.returncode == 0:
        return True, text
    if "violation" in text or "counterexample" in text:
        return False, text
    raise SpecError("%s\n%s" % (" ".join(cmd), text[-3000:]))
