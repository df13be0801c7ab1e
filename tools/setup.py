"""Nothing to build: checks that the interpreter and the package under test can be loaded."""
import os
import subprocess
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = os.environ.get("NEPS_SIM_PYTHON", "/opt/venv/bin/python")
sys.exit(subprocess.call([py, "-c", "from sim.boot import boot; boot(); print('ok')"], cwd=H,
                         env={**os.environ, "PYTHONPATH": H, "PYTHONDONTWRITEBYTECODE": "1"}))
