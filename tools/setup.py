"""Setup: nothing to build; verify that the interpreter, the library under test and the oracle modules import."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
sys.exit(subprocess.call([py, '-B', '-c', 'import numpy, scipy, pyoscode, rv.core, rv.jets, rv.pots, rv.flow'], cwd=V))
