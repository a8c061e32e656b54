"""python -m mc.replay FILE: re-executes one recorded case, without the explorer, twice, and prints what it finds."""
import importlib
import json
import sys

from . import engine


def main():
    rec = json.load(open(sys.argv[1]))
    engine.assert_provenance()
    mod = importlib.import_module("mc.props." + rec["property"].lower())
    if hasattr(mod, "setup"):
        mod.setup()
    first = engine.execute(mod, rec["case"]).fails
    second = engine.execute(mod, rec["case"]).fails
    print("deterministic:", [m.split("\n")[0] for m in first] == [m.split("\n")[0] for m in second])
    print("\n".join(first) or "holds")
    sys.exit(1 if first else 0)


if __name__ == "__main__":
    main()
