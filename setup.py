#!/usr/bin/env python3
"""Prepares the checks: compiles the library and the drivers once."""
import concurrent.futures
import pathlib
import subprocess
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from vf import build, quint

for spec in sorted(quint.SPEC.glob("*.qnt")):
    subprocess.run(["quint", "typecheck", str(spec)], check=True, env=quint._env(), stdout=subprocess.DEVNULL)
build.library()
with concurrent.futures.ThreadPoolExecutor(4) as pool:
    for path in pool.map(build.driver, [f.stem for f in sorted((pathlib.Path(__file__).resolve().parent / "harness").glob("*_driver.cc"))]):
        print(path)
