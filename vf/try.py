"""Development aid: python -m vf.try SPEC [oracle] [n] [seed]"""
import sys
from .core import Report, run_case
from .spec import load_all
names = [a for a in sys.argv[1].split(",")]
orc = sys.argv[2].split(",") if len(sys.argv) > 2 else ["ref", "deriv", "nodes", "history"]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 10
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
reg = load_all()
for nm in [k for k in reg if any(k == x or reg[k].prop == x or x == "all" for x in names)]:
    for o in orc:
        if o == "ref" and not reg[nm].ref and not reg[nm].inv: continue
        if o == "deriv" and not reg[nm].deriv: continue
        r = run_case("vf.checks.common", dict(fn="spec_case", args=dict(name=nm, oracle=o, chunk=0, n=n, seed=seed)))
        flag = "OK " if not r.violations and not r.errors else "BAD"
        print("%s %-45s %-8s ev=%d cmp=%d skip=%s wall=%.2f" % (flag, nm, o, r.evaluations, r.events["oracle_comparisons"], dict(r.skipped), r.wall))
        seen = set()
        for k, d in r.violations:
            if k in seen: continue
            seen.add(k)
            d = {a: b for a, b in d.items() if a not in ("_case", "_module", "inputs", "got_all", "want_all")}
            print("     ", k, str(d)[:420])
        for e in r.errors[:1]: print("      ERR", e[-700:])
