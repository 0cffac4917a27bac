"""python -m vf.replay PATH : re-execute the failing case(s) of a replay file."""
import json, os, sys
from . import core


def main():
    d = json.load(open(sys.argv[1]))
    os.environ["VERIF_SEED"] = str(d["seed"]); core.SEED = d["seed"]
    done, bad = set(), 0
    for o in d["occurrences"]:
        k = json.dumps(o["_case"], sort_keys=True)
        if k in done:
            continue
        done.add(k)
        rep = core.run_case(o["_module"], o["_case"])
        for key, det in rep.violations:
            det.pop("_case", None)
            print(("* " if key == d["key"] else "  ") + key, json.dumps(det, indent=1)[:3000])
            bad += key == d["key"]
        for e in rep.errors:
            print("ERROR", e)
    print("reproduced" if bad else "NOT reproduced")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
