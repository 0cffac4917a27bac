"""C25."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['withdrawn mass integrated by the documented Simpson scheme (exact for the quadratic through consecutive nodes)']


def cases(tier, seed):
    return by_prop("C25", tier, seed, 900, 5000)
