"""Nothing is built: this checks that the interpreters and solvers are there."""
import os, subprocess, sys
assert os.path.exists('/opt/venv/bin/python'), 'no project interpreter'
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, pandas, tables'])
subprocess.check_call(['/opt/venv/bin/python', '-c', "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print('z3', z3.get_version_string())"])
