"""C02: total derivatives through assembled groups and models."""
from .common import spec_cases, spec_case  # noqa: F401
from ..examples import X
from .missions import totals, example_totals, PROFILES  # noqa: F401
RULE = "distinct (model, options, input values) tuples at which analytic totals of every output were compared with differences of re-converged runs"
ASSUMPTIONS = ["models are re-converged to tight tolerance for every difference; points that do not converge or are not differentiable are skipped and counted"]


def cases(tier, seed):
    m = [dict(fn="totals", args=dict(profile=p, chunk=c, n=3, seed=seed)) for p in PROFILES for c in range(4 if tier == "quick" else 60)]
    x = [dict(fn="example_totals", args=dict(name=e, k=k, seed=seed, n=3 if tier == "quick" else 6))
         for e in sorted(X, key=lambda e: -X[e]["seconds"]) for k in range(1 if tier == "quick" else 4)]
    return x + m + spec_cases(lambda s: s.deriv and s.group, "deriv", 20, 200, 12, tier, seed)
