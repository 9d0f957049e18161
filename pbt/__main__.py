import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("PBT_STAGE") != "2":
    env = dict(os.environ)
    seed = int(env.get("VERIF_SEED", "1") or "1")
    env["PYTHONHASHSEED"] = str((seed*7919 + 17) % 4294967295)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PBT_STAGE"] = "2"
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.execve(sys.executable, [sys.executable, "-m", "pbt"] + sys.argv[1:], dict(env, PYTHONPATH=here))

from pbt import core

sys.set_int_max_str_digits(0)
sys.path.insert(0, core.REPO)


def load_sources():
    """import every module of the package from its source: compiled files left in /repo by an earlier run are matched by
    time and size only, and could be stale"""
    import warnings
    saved, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-pbt"
    try:
        base = os.path.join(core.REPO, "rosemary")
        for root, dirs, files in sorted(os.walk(base)):
            dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
            for name in sorted(files):
                if name.endswith(".py") and not name.startswith("test"):
                    path = os.path.relpath(os.path.join(root, name), core.REPO)[:-3]
                    module = path.replace(os.sep, ".")
                    if module.endswith(".__init__"):
                        module = module[:-9]
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            importlib.import_module(module)
                    except Exception:
                        pass
    finally:
        sys.pycache_prefix = saved


def load(prop):
    load_sources()
    from pbt import registry
    importlib.import_module("pbt.props." + registry.MODULE[prop])
    importlib.import_module("pbt.props.scale")
    importlib.import_module("pbt.props.scale_more")
    importlib.import_module("pbt.props.scale_third")
    importlib.import_module("pbt.props.scale_args")
    importlib.import_module("pbt.props.history_large")
    importlib.import_module("pbt.props.scale_special")


def main():
    args = sys.argv[1:]
    if args and args[0] == "replay":
        d = json.load(open(args[1]))
        load(d["property"])
        import ast
        msg = core.replay_case(d["property"], d["law"], ast.literal_eval(d["case"]),
                               [ast.literal_eval(c) for c in d.get("history", [])])
        if msg is None:
            print("the case passes: property={} law={}".format(d["property"], d["law"]))
            return 0
        print("{}\nVIOLATION property={} replay={}".format(msg, d["property"], args[1]))
        return 1
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    load(prop)
    return core.main(prop, tier, seed)


try:
    rc = main()
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 3
sys.exit(rc)
