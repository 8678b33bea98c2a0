"""Nothing to build: checks that the interpreters needed are present and the package loads."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc.loader import Package
Package()
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
subprocess.check_call([py, '-c', 'import numpy'])
print('ok')
