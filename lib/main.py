import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vutil import *

LEVEL = "model_checking"


def handler(pid):
    import check_alloc
    if pid in check_alloc.MIX:
        return check_alloc.check
    if pid in ("C14", "C15"):
        import check_ranges
        return check_ranges.check
    if pid in ("C16", "C17", "C18", "C20"):
        import check_slab
        return check_slab.check
    if pid in ("C10", "C11", "C12", "C13"):
        import check_conc
        return check_conc.check
    if pid == "C19":
        import check_derive
        return check_derive.check
    raise ToolError("no check for " + pid)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    run = Run(pid, tier, seed, LEVEL)
    try:
        try:
            handler(pid)(run)
        except BuildFailed as e:
            print("the harness does not build against /repo:\n" + str(e))
            return 2
        return run.finish()
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
