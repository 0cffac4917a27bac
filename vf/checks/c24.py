"""C24."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['piecewise-linear planforms with spanwise-ordered sections; sweep is the documented area-weighted mean of cosines']


def cases(tier, seed):
    return by_prop("C24", tier, seed, 1200, 8000)
