"""C15."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["references follow the documented linear sizing laws and constant-efficiency power balance"]


def cases(tier, seed):
    return by_prop("C15", tier, seed, 1500, 12000)
