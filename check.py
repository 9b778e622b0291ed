#!/opt/venv/bin/python
"""python check.py <property id>      decide one property on /repo's current tree
   python check.py --replay FILE      run a recorded counterexample on the real code"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[v] = "1"

if __name__ == "__main__":
    if "VERIF_REEXEC" not in os.environ:
        os.environ["VERIF_REEXEC"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
    from engine import run
    a = sys.argv[1:]
    if a[0] == "--batch":
        run.replay_batch(a[1])
        sys.exit(0)
    if a[0] == "--selftest":
        sys.exit(run.selftest())
    if a[0] == "--replay":
        sys.exit(run.replay_file(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.exit(run.main(a[0].upper(), tier, int(os.environ.get("VERIF_SEED", "1"))))
