"""C18."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["energy is integrated independently with the documented parabolic stencil on odd node counts"]


def cases(tier, seed):
    return by_prop("C18", tier, seed, 1200, 8000)
