#!/opt/venv/bin/python
"""check.py <property id> | --replay FILE.  See DESIGN.md."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RXLS_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(HERE, ".work", "hyp")

if __name__ == "__main__":
    from pbt import runner

    sys.exit(runner.cli(sys.argv[1:]))
