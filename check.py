#!/usr/bin/env python3
"""check.py <property>            run a check (VERIF_TIER, VERIF_SEED)
check.py replay <file>           re-run the case recorded in a replay file
check.py <property> --only N     run case N only
check.py setup                   check that the tools are there"""
import json
import os
import sys

VENV = "/opt/venv/bin/python"


def reexec():
    if os.path.exists(VENV) and os.environ.get("VERIF_INNER") != "1":
        env = dict(os.environ)
        env.update(
            VERIF_INNER="1", PYTHONHASHSEED="0", TQDM_DISABLE="1",
            PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
        )
        env.pop("PYTHONPATH", None)
        os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)


def run():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    os.chdir(here)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    from vlib import core

    if a[0] == "setup":
        import numpy, plotly, django, pyslope  # noqa
        from vlib import props

        print("ready:", ", ".join(sorted(props.REGISTRY)))
        return 0
    if a[0] == "replay":
        d = json.load(open(a[1]))
        return core.main(
            d["property"], d["tier"], d["seed"], only=d["index"]
        )
    only = int(a[a.index("--only") + 1]) if "--only" in a else None
    n = int(a[a.index("--cases") + 1]) if "--cases" in a else None
    return core.main(a[0], tier, seed, cases=n, only=only)


if __name__ == "__main__":
    reexec()
    try:
        code = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
