"""C08: missions."""
from .common import by_prop, spec_case  # noqa: F401
import openmdao.api as om
from .. import mission as M
from ..core import rng_for
from .missions import synthetic, example, cases as mission_cases  # noqa: F401
RULE = "distinct converged missions (random aircraft, schedules, profile options, node count; or a shipped example aircraft and its varied mission) and random component inputs audited"
ASSUMPTIONS = ["only converged missions whose throttle is off its bounds are audited; the others are counted as skipped",
               "Simpson quadrature on the phase's own nodes is the definition of the integrals"]


KINDS = ["v0v1", "v1vr", "v1v0", "rotate", "rotate_ode", "AllEngineClimbAngle", "EngineOutClimbAngle"]


def phase_case(rep, chunk, n, seed):
    """the phases of the takeoff on their own, away from the profiles' settings"""
    for j in range(n):
        kind = KINDS[(chunk * n + j) % len(KINDS)]
        r = rng_for("phase", seed, kind, chunk, j)
        try:
            p, *rest = M.fly_phase(r, kind)
        except om.AnalysisError:
            rep.skip("analysis error while converging")
            continue
        t = M.Trace(p)
        name = rest[-1]
        if not M.solved(p) or not kind.endswith("ClimbAngle") and kind != "rotate" and not M.inside(t, name, kind):
            rep.skip("phase did not converge")
            continue
        rep.evaluated((kind, seed, chunk, j))
        M.audit_phase(rep, kind, p, *rest)


def cases(tier, seed):
    return mission_cases("C08", tier, seed) + by_prop("C08", tier, seed, 200, 4000) + \
        [dict(fn="phase_case", args=dict(chunk=k, n=14, seed=seed)) for k in range(6 if tier == "quick" else 60)]
