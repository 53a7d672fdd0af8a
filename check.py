#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - decide one property on /repo's working tree.
check.py --setup                      - build what the checks need."""
import os, sys, shutil, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, build, areas


def main():
    if sys.argv[1] == "--setup":
        for n, engine, extra in areas.DRIVERS:
            try:
                build.driver(n, engine, extra)
            except build.BuildError as e:
                print(e)
                return 2
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    try:
        level, rule = areas.CHECKS[prop](ctx)
        return core.finish(ctx, level, rule)
    except (core.CheckError, build.BuildError) as e:
        print("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
        else:
            print("kept", ctx.dir)


if __name__ == "__main__":
    sys.exit(main())
