"""Builds libexactreal and the conformance drivers from /repo's working tree.

Everything is built outside of /repo. Results are cached below /verif/.build,
keyed by a hash of every file that goes into them, so a change in /repo always
leads to a rebuild."""
import concurrent.futures
import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
LIB = REPO / "libexactreal"
BUILD = VERIF / ".build"
STUBS = VERIF / "stubs"
GUARD = "-DEXACTREAL_VERIF"
CXXFLAGS = ["-std=c++17", "-g1", "-O1", "-fPIC", "-pthread", GUARD]
LIBS = ["-leanticxx", "-leantic", "-lflint", "-lgmpxx", "-lgmp", "-pthread"]


class BuildError(Exception):
    pass


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for path in sorted(paths):
        h.update(str(path).encode())
        h.update(path.read_bytes())
    return h.hexdigest()[:24]


def _sources():
    ret = []
    for d in (LIB / "src", LIB / "exact-real", STUBS):
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith((".cc", ".hpp", ".ipp", ".h", ".in", ".cpp")):
                    ret.append(pathlib.Path(root) / f)
    return ret


def _run(cmd, log):
    with open(log, "w") as out:
        p = subprocess.run([str(c) for c in cmd], stdout=out, stderr=subprocess.STDOUT)
    if p.returncode:
        tail = pathlib.Path(log).read_text(errors="replace")
        errors = [line for line in tail.splitlines() if "error" in line or "undefined" in line][:8]
        raise BuildError("%s\n%s" % (" ".join(str(c) for c in cmd), "\n".join(errors) or tail[-2000:]))


def _locked(key):
    BUILD.mkdir(exist_ok=True)
    lock = open(BUILD / (key + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    return lock


def library(flavour="plain", flags=()):
    """Compile all of libexactreal; return the build directory."""
    key = "lib-%s-%s" % (flavour, _digest(_sources(), " ".join(CXXFLAGS) + " ".join(flags)))
    out = BUILD / key
    with _locked(key):
        if (out / "ok").exists():
            os.utime(out)
            return out
        shutil.rmtree(out, ignore_errors=True)
        (out / "include").mkdir(parents=True)
        local = (LIB / "exact-real" / "local.hpp.in").read_text().replace("@libdir@", str(out))
        (out / "include" / "local.hpp").write_text(local)
        units = sorted((LIB / "src").glob("*.cc"))
        def compile(unit):
            _run(["g++", *CXXFLAGS, *flags, "-DBUILD_LIBEXACTREAL", "-I" + str(STUBS), "-I" + str(out / "include"), "-I" + str(LIB),
                  "-c", unit, "-o", out / (unit.stem + ".o")], out / (unit.stem + ".log"))
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            list(pool.map(compile, units))
        (out / "ok").write_text("")
        _prune()
        return out


def driver(name, flavour="plain", flags=()):
    """Compile and link harness/<name>.cc against the library."""
    lib = library(flavour, flags)
    harness = VERIF / "harness"
    key = "drv-%s-%s-%s" % (name, lib.name[-24:], _digest([harness / (name + ".cc")] + list(harness.glob("*.hpp")), flavour + " ".join(CXXFLAGS)))
    out = BUILD / key
    with _locked(key):
        if (out / name).exists():
            os.utime(out)
            return out / name
        out.mkdir(parents=True, exist_ok=True)
        tmp = out / (name + ".tmp")
        _run(["g++", *CXXFLAGS, "-O0", *flags, "-I" + str(STUBS), "-I" + str(lib / "include"), "-I" + str(LIB), "-I" + str(harness),
              harness / (name + ".cc"), *sorted(lib.glob("*.o")), *LIBS, "-o", tmp], out / "log")
        tmp.rename(out / name)
        return out / name


def _prune(keep=24):
    entries = sorted((d for d in BUILD.iterdir() if d.is_dir()), key=lambda d: d.stat().st_mtime, reverse=True)
    for d in entries[keep:]:
        shutil.rmtree(d, ignore_errors=True)
        try:
            (BUILD / (d.name + ".lock")).unlink()
        except OSError:
            pass


if __name__ == "__main__":
    for name in sys.argv[1:]:
        print(driver(name))
