"""C13: lift, drag, stall speed, maximum lift."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["references are written from the documented relations (parabolic polar, lift definition, sea-level EAS stall speed, Raymer/Roskam CLmax corrections)"]


def cases(tier, seed):
    return by_prop("C13", tier, seed, 1500, 12000)
