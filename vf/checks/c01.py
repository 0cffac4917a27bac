"""C01: partial derivatives of every shipped component against re-evaluated differences."""
from .common import spec_cases, spec_case  # noqa: F401
RULE = "distinct (component, options, input values) tuples at which every declared and undeclared partial was compared with Richardson-extrapolated differences along a random direction per input"
ASSUMPTIONS = ["a mismatch counts only when two smaller-step difference pairs agree with each other from both sides (the point is differentiable) and disagree with the analytic value"]


def cases(tier, seed):
    return spec_cases(lambda s: s.deriv and not s.group, "deriv", 120, 1200, 25, tier, seed)
