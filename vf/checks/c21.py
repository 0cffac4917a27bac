"""C21."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['NTU cold plates, lumped masses and reservoirs; unsteady temperatures are compared with the Simpson-rule (documented integrator) solution of the reference linear ODE, not the analytic one']


def cases(tier, seed):
    return by_prop("C21", tier, seed, 400, 3000)
