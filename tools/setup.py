"""Checks that the tools the checks need are there (nothing has to be built)."""
import subprocess
import z3
print("z3", z3.get_version_string())
subprocess.check_call(["/opt/venv/bin/python", "-W", "ignore", "-c", "import petlib.ec, bplib.bp, msgpack, attr; print('petlib ok')"])
