#!/usr/bin/env python3
"""Usage: run.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property. Exit 0: held on everything explored; exit 1 plus a VIOLATION line:
it did not; exit 2: the machinery itself failed."""
import argparse
import os
import sys
import traceback

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != "/opt/venv":
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    from harness import common

    common.jax_env()
    from harness.checks import CHECKS

    rep = common.Report(a.prop, a.tier, a.seed)
    try:
        CHECKS[a.prop](rep, a.tier, a.seed)
    except common.ImplementationCrash as e:
        rep.violate("the implementation raised an exception on a legal problem", str(e))
    except common.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return common.finish(rep, "model_checking")


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)  # nothing left to do: do not wait for XLA's threads to be torn down
