#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--seed N]: runs the check of one property against /repo's working tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
ENV = {"PYTHONPATH": os.environ.get("VERIF_REPO", "/repo"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "MPLBACKEND": "Agg",
       "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "TQDM_DISABLE": "1", "PYTHONHASHSEED": "0", "VERIF_REEXEC": "1"}


def main():
    args = sys.argv[1:]
    for a in list(args):
        if a in ("quick", "thorough"):
            os.environ["VERIF_TIER"] = a
            args.remove(a)
    if "--seed" in args:
        j = args.index("--seed")
        os.environ["VERIF_SEED"] = args[j + 1]
        del args[j:j + 2]
    if os.environ.get("VERIF_REEXEC") != "1":
        os.environ.update(ENV)
        os.execv(VENV, [VENV, os.path.abspath(__file__)] + args)
    sys.path.insert(0, HERE)
    import registry
    import core
    import logging
    logging.disable(logging.CRITICAL)
    prop = args[0]
    c = core.Check(prop)
    try:
        try:
            registry.CHECKS[prop](c)
        except Exception:
            if not c.failures:      # the machinery itself failed
                raise
            import traceback        # what was recorded before is a violation all the same
            traceback.print_exc()
        return c.finish()
    finally:
        import shutil
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
