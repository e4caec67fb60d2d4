"""python -m mc.run C01 [--tier quick|thorough] [--replay FILE] [--list]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)

import importlib  # noqa
import pkgutil  # noqa


def registry():
    import mc.checks as pkg

    res = {}
    for m in pkgutil.iter_modules(pkg.__path__):
        if m.name[0] == "c" and m.name[1:3].isdigit():
            res[m.name.split("_")[0].upper()] = f"mc.checks.{m.name}"
    return dict(sorted(res.items()))


def main():
    args = sys.argv[1:]
    tier = replay = None
    ids = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--list":
            for k, v in registry().items():
                print(k, v)
            return 0
        else:
            ids.append(a)
    reg = registry()
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    pre = os.environ.get("MC_PREIMPORT")
    rc = 0
    for i in ids:
        mod = importlib.import_module(reg[i])
        import elsie

        assert os.path.realpath(elsie.__file__).startswith(os.path.realpath(REPO) + os.sep), (
            elsie.__file__)
        from mc import engine

        rc = max(rc, engine.main_check(mod, tier=tier, replay=replay))
    return rc


if __name__ == "__main__":
    sys.exit(main())
