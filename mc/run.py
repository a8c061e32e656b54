import importlib
import json
import os
import sys
import traceback

from . import engine


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        mod = importlib.import_module("mc.props." + prop.lower())
        rc = engine.run(mod, prop, tier)
    except Exception:
        # the code under test can't even be imported or set up as the documented API promises
        rc = 1
        text = traceback.format_exc()
        os.makedirs(os.path.join(engine.VERIF, "replays"), exist_ok=True)
        os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(engine.VERIF, "replays", "%s-0.json" % prop)
        with open(path, "w") as fp:
            json.dump({"property": prop, "tier": tier, "case": None, "messages": [text]}, fp, indent=1)
        with open(os.path.join(engine.VERIF, "evidence", prop + ".json"), "w") as fp:
            json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
                       "level": "model_checking",
                       "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 0,
                                    "exhaustive": False, "samples": [text[-300:]]},
                       "assumptions": [], "wall_s": 0.0, "violations": 1}, fp, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(text)
    sys.exit(rc)


if __name__ == "__main__":
    main()
