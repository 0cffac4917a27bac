"""C30: results depend on the current inputs only."""
import numpy as np
import openmdao.api as om
from .. import mission as M
from ..core import rng_for
from .common import spec_cases, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples whose history of evaluations was replayed, and missions flown, changed, flown back, set up again"
ASSUMPTIONS = ["implicit systems are compared to solver tolerance"]


def mission_history(rep, profile, chunk, n, seed):
    """A whole mission: there and back, after gradients, beside another mission, after a second setup."""
    for j in range(n):
        A = M.draw_cfg(seed, profile, 700000 + chunk * 1000 + j)
        rng = rng_for("mission_history", seed, profile, chunk, j)

        def snap(p, keys=None):
            t = M.Trace(p)
            out = {}
            for ph in M.STEADY[profile] + (["v0v1", "v1vr", "v1v0", "rotate"] if profile.startswith("Full") else []):
                for v in ("throttle", "range", "fltcond|h", "fltcond|Utrue", "weight", "fuel_used", "batt.SOC", "drag", "duration", "accel_horiz"):
                    if t.has(ph + "." + v):
                        out[ph + "." + v] = t(ph + "." + v).ravel().copy()
            return out

        def ok(p):
            return M.solved(p, 1e-6) and M.settled(M.Trace(p), M.STEADY[profile])
        try:
            p = M.fly(A)
            if not ok(p):
                rep.skip("mission did not converge")
                continue
            p.run_model()
            base = snap(p)

            def same(tag):
                if not ok(p):
                    rep.skip("mission did not converge again")
                    return
                now = snap(p)
                for k, w in base.items():
                    rep.close("mission:%s:%s" % (tag, k.split(".", 1)[1]), now[k], w, rtol=2e-6, atol=2e-6 * max(np.max(np.abs(w)), 1e-3 if "accel" not in k else 1.0), profile=profile, options=A["opts"], variable=k, cfg=list(A["id"]))
            p.compute_totals(of=["descent.range"], wrt=["mission_range", "ac|weights|MTOW"])
            p.run_model(); same("after_gradients")
            # another aircraft, with its own ways of integrating, in the same process
            B = M.draw_cfg(seed, profile, 800000 + chunk * 1000 + j)
            M.fly(B)
            p.run_model(); same("beside_another_mission")
            # another mission of the same aircraft and back
            f = {k: rng.uniform(.9, 1.0) for k in ("mission_range", "cruise|h0")}
            for k, s in f.items():
                p.set_val(k, p.get_val(k) * s)
            p.run_model()
            for k, s in f.items():
                p.set_val(k, p.get_val(k) / s)
            p.run_model(); same("there_and_back")
            # the very same model set up a second time
            p.setup(check=False, mode="fwd")
            M.set_mission(p, A)
            p.run_model(); same("after_second_setup")
        except om.AnalysisError:
            rep.skip("analysis error while converging")
            continue
        rep.evaluated((profile, A["id"]))
        rep.event("mission_histories"); rep.event("profile:" + profile); rep.event("model_runs", 6)


def cases(tier, seed):
    m = [dict(fn="mission_history", args=dict(profile=p, chunk=c, n=2, seed=seed)) for p in M.STEADY for c in range(3 if tier == "quick" else 40)]
    return m + spec_cases(lambda s: True, "history", 10, 120, 12, tier, seed)
