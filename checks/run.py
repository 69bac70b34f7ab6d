#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]"""
import importlib
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, runner, interp  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("checks." + prop.lower())
    ctx = check.Ctx(prop, tier, seed)
    if tier == "quick":
        # a violation already reported is the answer, however slow the rest becomes
        def late():
            if ctx.viol:
                print("%s: stopped early, %d violations" % (prop, len(ctx.viol)))
                sys.stdout.flush()
                os._exit(1)
        t = threading.Timer(780, late)
        t.daemon = True
        t.start()
    try:
        interp.big_stack(mod.run, ctx)
        rc = ctx.finish()
    except (build.BuildError, runner.HarnessError) as e:
        print("NO ANSWER: %s" % e)
        rc = 1 if ctx.viol else 2
        if ctx.viol:
            ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.viol else 3
    sys.stdout.flush()
    os._exit(rc)


main()
