"""C23."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['regression coefficients as documented (Raymer, Roskam/Torenbeek, Bradley); small-turboprop landing gear length enters as feet/12 as in the code']


def cases(tier, seed):
    return by_prop("C23", tier, seed, 600, 4000)
