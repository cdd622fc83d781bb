"""setup: nothing to build; check that the tools the verifier needs are present."""
import sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import z3
from pyver import terms, values, interp, loops, lib, npsem, vsem, prove
s = z3.Solver(); x = z3.Int('x'); s.add(x > x + 1)
assert str(s.check()) == 'unsat'
assert subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy'], capture_output=True).returncode == 0
print('ok z3', z3.get_version_string())
