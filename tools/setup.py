#!/usr/bin/env python3
"""Setup: nothing to compile; verify that the interpreter and the package under test can be used offline."""
import os
import subprocess
import sys

py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
code = "import numpy, yaml, matplotlib, pyvista, sys; sys.path.insert(0, '/repo'); import pyGCodeDecode.gcode_interpreter; print('ok')"
sys.exit(subprocess.call([py, "-B", "-c", code]))
