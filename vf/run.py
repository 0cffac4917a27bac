"""python -m vf.run C01 quick : run one check, write evidence, print the verdict."""
import collections, importlib, json, os, sys, time
from . import core


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = core.SEED
    t0 = time.time()
    modname = "vf.checks." + prop.lower()
    core.watch_lines()
    mod = importlib.import_module(modname)
    if hasattr(mod, "prepare"):
        with core.quiet():
            mod.prepare(tier)
    cases = mod.cases(tier, seed)
    workers = getattr(mod, "WORKERS", 8)
    rep, walls = core.run_cases(modname, cases, workers)
    if hasattr(mod, "finish"):
        mod.finish(rep, tier)
    # a solved system that never converges is a failure of its own: nothing it reports could be relied on
    for k, n in list(rep.events.items()):
        if k.startswith("attempts:") and n >= 8:
            rep.require(k[9:] + ":never_converges", rep.events["class:" + k[9:]] > 0, attempts=n)
        if k.startswith("attempts:") and n >= 20:
            rep.require(k[9:] + ":hardly_ever_converges", rep.events["class:" + k[9:]] > .25 * n, attempts=n, converged=rep.events["class:" + k[9:]])
    known = [k for k in core.load_known() if k["prop"] == prop]
    rdir = os.path.join(core.ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    fresh, seen_known = collections.OrderedDict(), collections.OrderedDict()
    for key, d in rep.violations:
        hit = [k for k in known if k["key"] == key or (k["key"].endswith("*") and key.startswith(k["key"][:-1]))]
        if hit:
            seen_known[hit[0]["key"]] = hit[0]
        else:
            fresh.setdefault(key, []).append(d)
    # every listed finding of the property is announced, reached or not in this run
    for k in known:
        print("KNOWN-FINDING: property=%s key=%s %s%s" % (prop, k["key"], k["text"],
              "" if k["key"] in seen_known else " (not reached in this run)"))
    wall = time.time() - t0
    rep.lines |= core.LINES
    if os.environ.get("VF_LINES"):
        json.dump(sorted(rep.lines), open(os.environ["VF_LINES"], "w"))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=int(rep.evaluations), distinct_nontrivial=len(rep.distinct),
                            rule=getattr(mod, "RULE", ""), samples=rep.samples[:6],
                            monitor_events={k: int(v) for k, v in sorted(rep.events.items())},
                            skipped={k: int(v) for k, v in sorted(rep.skipped.items())},
                            cases=len(cases),
                            repo_lines_executed=dict(collections.Counter(f for f, _ in sorted(rep.lines))),
                            largest_accepted_relative_deviation={k: float(v) for k, v in sorted(rep.maxerr.items())},
                            slowest_cases=[[round(w, 2), core.jsonable(c)] for w, c in sorted(walls, key=lambda x: -x[0])[:3]]),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(fresh))
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = [core.jsonable(c) for c in cases[:3]]
    with open(os.path.join(core.ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        for i, (key, ds) in enumerate(fresh.items()):
            safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:80]
            path = os.path.join(rdir, "%s-%s.json" % (prop, safe))
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=key, tier=tier, seed=seed, occurrences=ds), f, indent=1)
            if i < 12:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                d = {k: v for k, v in ds[0].items() if k not in ("_case", "_module", "got_all", "want_all")}
                print("   key=%s %s" % (key, json.dumps(d)[:900]))
        sys.exit(1)
    if rep.errors:
        print("ERROR property=%s %d harness errors; first:\n%s" % (prop, len(rep.errors), rep.errors[0]))
        sys.exit(2)
    if rep.evaluations == 0 or rep.events.get("oracle_comparisons", 0) == 0:
        print("INCONCLUSIVE property=%s the monitors observed nothing: %s" % (prop, dict(rep.skipped)))
        sys.exit(3)
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d comparisons=%d skipped=%d wall=%.1fs" % (
        prop, tier, seed, rep.evaluations, len(rep.distinct), rep.events["oracle_comparisons"],
        sum(rep.skipped.values()), wall))


if __name__ == "__main__":
    main()
