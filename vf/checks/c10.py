"""C10."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, declared relations, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['unit conversions by a private table of factors']


def cases(tier, seed):
    return by_prop("C10", tier, seed, 1200, 15000)
