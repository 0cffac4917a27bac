"""C29: each analysis point independent of the others."""
from .common import spec_cases, spec_case  # noqa: F401
RULE = "distinct (class, options, vectors) whose batch result was compared with single-node, permuted and duplicated batches"
ASSUMPTIONS = ["integrating and differentiating components are outside the property and excluded"]


def cases(tier, seed):
    return spec_cases(lambda s: s.pointwise and s.nn, "nodes", 60, 300, 20, tier, seed)
