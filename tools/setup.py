"""offline sanity check of the environment the checks need"""
import subprocess
import sys
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "."); from symx.z3load import z3; import numpy, pandas, shapely, xarray; print("ok", z3.get_version_string())'])
sys.exit(r.returncode)
