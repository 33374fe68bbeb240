"""Runs one check in this process.  Exit: 0 held, 1 violation, 3 the code under test made the driver fail, 2 machinery."""
import importlib
import json
import os
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    import vf
    ctx = vf.Ctx(prop, tier, seed)
    try:
        try:
            mod = importlib.import_module("checks." + prop.lower())
            mod.run(ctx)
            rc = vf.finish(ctx, assumptions=getattr(mod, "ASSUMPTIONS", ()))
        except vf.MachineryError as x:
            print("MACHINERY: %s" % x)
            rc = 2
        except BaseException:
            tb = traceback.format_exc()
            print(tb)
            if ctx.fails:
                rc = vf.finish(ctx)
            else:
                rep = os.path.join(vf.VERIF, "evidence", "replay_%s.json" % prop)
                os.makedirs(os.path.dirname(rep), exist_ok=True)
                with open(rep, "w") as f:
                    json.dump({"property": prop, "seed": seed, "tier": tier, "driver_stopped_by": tb}, f, indent=1)
                rc = 3
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
