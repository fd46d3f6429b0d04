#!/usr/bin/env python3
"""Setup: nothing to build; checks that the tools the checks need are present."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
code = ("import sys; sys.path.insert(0, %r); import jsmt, z3, cvc5, jax, jaxlie, sksparse.cholmod; "
        "x = z3.Real('x'); s = z3.Solver(); s.add(x * x == 2); assert s.check() == z3.sat; print('ok', z3.get_version_string())" % V)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-c", code],
                         env=dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")))
