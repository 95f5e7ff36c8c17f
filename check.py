#!/usr/bin/env python3
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from vf.run import main

sys.exit(main(sys.argv[1:]))
