#!/usr/bin/env python3
"""setup_cmd: nothing is built; verifies that the interpreter, the code under test and
Hypothesis can be loaded together, so that a broken sandbox is noticed here."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from pbt.env import PYTHON, process_env  # noqa: E402
code = ("import sys; sys.path.insert(0, %r)\nfrom pbt import env; env.setup()\nimport hypothesis, triples, sympy\n"
        "print('hypothesis', hypothesis.__version__, 'sympy', sympy.__version__, list(triples.__path__))" % ROOT)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
sys.exit(subprocess.run([PYTHON, "-W", "ignore", "-c", code], env=process_env(), cwd="/tmp").returncode)
