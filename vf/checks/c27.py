"""C27."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['taper in (0,1], sections ordered from tip to root']


def cases(tier, seed):
    return by_prop("C27", tier, seed, 900, 5000)
