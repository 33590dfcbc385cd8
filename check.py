#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--seed N]"""
import argparse, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, build, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    cx = core.Ctx(a.prop, a.tier, a.seed)
    try:
        checks.CHECKS[a.prop](cx)
        return cx.finish()
    except core.Enough:
        return cx.finish()
    except build.BuildError as e:
        print("the tree does not build:\n%s" % e)
        return 2
    except core.CheckBroken as e:
        print("CHECK BROKEN: %s" % e)
        if cx.violations:
            return cx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if cx.violations:
            return cx.finish()
        return 2
    finally:
        cx.close()


if __name__ == "__main__":
    status = main()
    sys.stdout.flush()
    os._exit(status)      # threads may still be waiting for what has been ended
