"""python -m psym.replay CASE.json - run one counterexample on the real psion.

Exit 1: the violation reproduces.  Exit 0: it does not.  Exit 3: the input is
outside the harness assumptions.  Runs under the project's own interpreter."""
import importlib
import json
import os
import sys
import traceback
import warnings

REPO_SRC = os.environ.get("PSYM_REPO_SRC", "/repo/src")


def main(path):
    warnings.simplefilter("ignore")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, REPO_SRC)
    sys.path.insert(0, here)
    with open(path) as f:
        case = json.load(f)
    from psym import ctx as C, replay_env
    ctx = C.ConcCtx(case)
    replay_env.install(ctx.draws)
    mod = importlib.import_module("harness." + case["module"])
    fn = getattr(mod, case["function"])
    try:
        fn(ctx, **case.get("params", {}))
    except C.ReplayViolation as e:
        print("reproduced:", e)
        return 1
    except C.ReplayDiscard:
        print("outside the assumptions")
        return 3
    except Exception as e:  # noqa: BLE001
        print("reproduced: unexpected exception", type(e).__name__, str(e)[:200].encode("ascii", "backslashreplace").decode())
        if os.environ.get("PSYM_TRACE"):
            traceback.print_exc()
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
