"""C19."""
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['plate-fin relations: Manglik-Bergles offset-strip-fin correlations, fin efficiency, NTU-effectiveness (unmixed cross-flow), Kays-London core pressure drop; the reference exchanger is computed independently from first to last relation']


def cases(tier, seed):
    return by_prop("C19", tier, seed, 800, 5000)
