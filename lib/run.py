"""usage: run.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vp
prop = sys.argv[1]
def go():
    import importlib
    for m in ("field_checks", "arm_checks", "group_checks", "par_checks", "io_checks", "gen_checks", "own_checks"):
        if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            continue
        c = importlib.import_module(m).CHECKS
        if prop in c:
            return c[prop]()
    raise SystemExit("unknown property " + prop)
vp.main(go, prop)
