#!/opt/venv/bin/python
"""Run one property check: run_check.py C01 [--tier quick|thorough] [--replay FILE] [--only SUB]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or sys.executable != "/opt/venv/bin/python":
    os.environ["PYTHONHASHSEED"] = "0"
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    if os.environ.get("VERIF_REEXEC") != "1":
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from harness import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
