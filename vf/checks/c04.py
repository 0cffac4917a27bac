"""C04."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['unit conversions by a private table']


def cases(tier, seed):
    return by_prop("C04", tier, seed, 1500, 40000)
