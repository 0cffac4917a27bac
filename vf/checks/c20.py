"""C20."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["perfect gas (gamma 1.4 unless set), isentropic relations, quasi-one-dimensional duct; the implicit duct's reference is found by root finding on the nozzle mass balance; only flows with a unique subsonic station solution are compared"]


def cases(tier, seed):
    return by_prop("C20", tier, seed, 300, 2500)
