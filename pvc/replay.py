"""python -m pvc.replay FILE : run the recorded input of a violation on the real code."""
import json
import random
import sys

from . import env


def main():
    v = json.load(open(sys.argv[1]))
    env.setup(False)
    env.load_contracts(v["property"])
    from .concrete import run_one
    from .ctx import HARNESSES

    h = next(x for x in HARNESSES if x.name == v["harness"])
    if v.get("before"):
        print("before:", *run_one(h, random.Random(1), v["before"])[::2])
    st, c, info = run_one(h, random.Random(1), v["inputs"])
    print(st, info)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
