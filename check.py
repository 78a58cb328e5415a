#!/usr/bin/env python3
"""Checks one property: check.py <id> [--tier quick|thorough] [--seed N]"""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import shutil, resource
from cm import HarnessError, WORK
import build, checks
from runner import Ctx


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    o = a.parse_args()
    ctx = Ctx(o.prop, o.tier, o.seed)
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    want = 65536 if hard == resource.RLIM_INFINITY else min(hard, 65536)
    resource.setrlimit(resource.RLIMIT_NOFILE, (max(soft, want), hard))
    os.makedirs(WORK, exist_ok=True)
    try:
        build.build()
        ctx.log("built")
        checks.CHECKS[o.prop](ctx)
        rc = ctx.finish()
    except HarnessError as e:
        print(f"ERROR: {e}")
        # What was found before the machinery failed counts.
        rc = ctx.finish() or 2
    except Exception:
        traceback.print_exc()
        rc = ctx.finish() or 2
    ctx.log(f"exit {rc}")
    sys.exit(rc)


if __name__ == "__main__":
    main()
