"""C03."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['unit conversions by a private table', 'BDF3 needs five nodes or more (three raise in the sparse-matrix library)']


def cases(tier, seed):
    return by_prop("C03", tier, seed, 700, 20000)
