"""run.py <property id> [--tier quick|thorough] [--replay FILE]   (run with /opt/venv/bin/python)"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    from mc import core

    mod = importlib.import_module("mc.props." + prop.lower())
    if "--replay" in args:
        code = core.replay(mod, args[args.index("--replay") + 1])
    else:
        code = core.run(mod, tier, seed)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
