"""Entry point of every check: main.py <PROPERTY> [--tier quick|thorough]."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import core  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    core.setup_scratch()
    rc = 3
    try:
        mod = importlib.import_module(f"vf.checks.{pid.lower()}")
        chk = core.Check(pid, tier, seed)
        mod.run(chk)
        rc = chk.finish()
    except core.MachineryError as e:
        print(f"MACHINERY-ERROR property={pid}: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        core.cleanup_scratch()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
