import importlib
import os
import sys


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import env

    env.prepare()
    mod = importlib.import_module("checks." + prop.lower())
    from . import monitor

    budget = getattr(mod, "BUDGET", {"quick": 300.0, "thorough": 1500.0})[tier]
    return monitor.run(
        prop,
        tier,
        seed,
        mod.body,
        getattr(mod, "LEVEL", "exploration"),
        mod.RULE,
        budget,
        getattr(mod, "ASSUMPTIONS", ()),
    )


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
