"""C06: missions."""
from .common import by_prop, spec_case  # noqa: F401
from .missions import synthetic, example, cases as mission_cases  # noqa: F401
RULE = "distinct converged missions (random aircraft, schedules, profile options, node count; or a shipped example aircraft and its varied mission) and random component inputs audited"
ASSUMPTIONS = ["only converged missions whose throttle is off its bounds are audited; the others are counted as skipped",
               "Simpson quadrature on the phase's own nodes is the definition of the integrals"]


def cases(tier, seed):
    return mission_cases("C06", tier, seed) + by_prop("C06", tier, seed, 200, 4000)
