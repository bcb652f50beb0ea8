#!/opt/veriftools/pyvenv/bin/python3
"""setup_cmd: the tools the checks need are there (nothing is built ahead: every check compiles from /repo)."""
import subprocess
import sys
import z3

x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
if s.check() != z3.unsat:
    sys.exit('z3 is broken')
for c in ('clang++-18', 'opt-18', 'g++'):
    if subprocess.run(['which', c], capture_output=True).returncode:
        sys.exit(c + ' is missing')
print('ok')
