"""python run.py <property id> : runs the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1"); os.environ.setdefault("OMP_NUM_THREADS", "1")
import vlib
if __name__ == "__main__":
    vlib.main(importlib.import_module(sys.argv[1].lower()).check)
