#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree.
check.py <property> --replay FILE: performs the recorded script of a violation again.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

MODULES = {"C01": "chk_builder", "C04": "chk_builder", "C20": "chk_builder", "C17": "chk_ring", "C19": "chk_calendar",
           "C05": "chk_values", "C06": "chk_values", "C07": "chk_values", "C08": "chk_values",
           "C09": "chk_rewrite", "C10": "chk_rewrite", "C11": "chk_rewrite", "C12": "chk_rewrite",
           "C02": "chk_font", "C03": "chk_font", "C16": "chk_font", "C18": "chk_font", "C23": "chk_font",
           "C13": "chk_conc", "C21": "chk_share", "C22": "chk_pipe", "C14": "chk_raster", "C15": "chk_raster"}

def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = sys.argv[2] if len(sys.argv) > 2 and not replay else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(MODULES[pid])
        if replay:
            ctx.replay(replay)
            for _, kind, tag, l, ev in ctx.violations:
                print("rejected: kind=%s tag=%s event %d" % (kind, tag, l))
            sys.exit(1 if ctx.violations else 0)
        getattr(mod, pid)(ctx)
        rc = ctx.finish(getattr(mod, "LEVELS", {}).get(pid, "model_checking"))
    except vlib.CheckError as e:
        print("CHECK ERROR:", e)
        rc = 2
        if ctx.violations:
            rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    sys.exit(rc)

main()
