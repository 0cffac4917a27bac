"""C14: parasite drag build-up."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["references are written from the cited Raymer/OpenVSP relations; the Sutherland constant 100.4 K used by the code (and its tests) is taken as documented"]


def cases(tier, seed):
    return by_prop("C14", tier, seed, 1000, 6000)
