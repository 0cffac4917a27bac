"""Shared case builders for checks driven from specs."""
import math
from ..spec import load_all, spec_case  # noqa: F401  (spec_case is looked up by name in the check modules)


def spec_cases(select, oracle, n_quick, n_thorough, chunk=25, tier="quick", seed=1):
    reg = load_all()
    out = []
    n = n_quick if tier == "quick" else n_thorough
    for name, s in reg.items():
        if not select(s):
            continue
        m = max(2, int(round(n * s.weight)))
        ch = max(1, math.ceil(m / chunk))
        for c in range(ch):
            out.append(dict(fn="spec_case", args=dict(name=name, oracle=oracle, chunk=c, n=math.ceil(m / ch), seed=seed)))
    # the slow ones first, so that no worker ends up alone with one
    return sorted(out, key=lambda c: reg[c["args"]["name"]].weight)


# components filed under another property that this property's statement speaks of as well
ALSO = {
    "C06": ["ComputeAtmosphericProperties", "TrueAirspeedComp", "EquivalentAirspeedComp", "Integrator", "LinearInterpolator", "DVLabel"],
    "C07": ["HorizontalAcceleration", "Groundspeeds", "SteadyFlightCL", "Lift", "PolarDrag", "SOCBattery", "Integrator", "AddSubtractComp"],
    "C08": ["HorizontalAcceleration", "VerticalAcceleration", "VerticalAcceleration_limited", "Groundspeeds", "Groundspeeds_beyond_vertical", "Groundspeeds_mixed",
            "SteadyFlightCL", "Lift", "StallSpeed", "LinearInterpolator", "ElementMultiplyDivideComp", "AddSubtractComp", "Integrator"],
    "C10": ["FlipVectorComp"],
    "C13": ["SteadyFlightCL"],
    "C17": ["SimpleMotor", "SimpleGenerator", "SimpleTurboshaft", "SimplePropeller", "SimpleBattery", "SOCBattery", "AddSubtractComp", "ElementMultiplyDivideComp"],
    "C18": ["Integrator"],
    "C21": ["Integrator", "PowerSplit"],
    "C22": ["PerfectHeatTransferComp", "SelectorComp"],
    "C23": ["AddSubtractComp", "ElementMultiplyDivideComp"],
    "C25": ["Integrator", "AddSubtractComp"],
}


def by_prop(prop, tier, seed, n_quick, n_thorough, chunk=25):
    """Reference-oracle trials of every spec that belongs to one property, and fewer of those it leans on."""
    return spec_cases(lambda s: s.prop == prop and (s.ref or s.inv), "ref", n_quick, n_thorough, chunk, tier, seed) + \
        spec_cases(lambda s: s.name in ALSO.get(prop, ()) and (s.ref or s.inv), "ref", min(n_quick, 100), min(n_thorough, 2000), chunk, tier, seed)
