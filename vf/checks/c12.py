"""C12: atmosphere and airspeed relations."""
import numpy as np
import openmdao.api as om
from .common import spec_cases, spec_case, by_prop  # noqa: F401
from ..core import rng_for, guarded

RULE = "distinct (class, options, input values) tuples run; altitudes mix troposphere, blend region, its seams, stratosphere and sea level"
ASSUMPTIONS = ["reference: 1976 standard atmosphere layers with the documented C1 cubic blend between 10.5 and 11.5 km and the constants R=287.058, T0=288.16, p0=101325, rho0=1.225"]


def cases(tier, seed):
    q = tier == "quick"
    out = by_prop("C12", tier, seed, 120, 1500)
    out += [dict(fn="sweep", args=dict(seed=seed, k=k, n=2001 if q else 20001)) for k in range(2 if q else 8)]
    out += [dict(fn="roundtrip", args=dict(seed=seed, k=k, n=40 if q else 400)) for k in range(1 if q else 4)]
    return out


def _model(nn, tas):
    import openconcept.atmospherics as A
    p = om.Problem(reports=False)
    ivc = p.model.add_subsystem("vf_ivc", om.IndepVarComp(), promotes=["*"])
    ivc.add_output("fltcond|h", np.zeros(nn), units="m")
    ivc.add_output("fltcond|TempIncrement", np.zeros(nn), units="degC")
    ivc.add_output("fltcond|Utrue" if tas else "fltcond|Ueas", np.ones(nn), units="m/s")
    p.model.add_subsystem("a", A.ComputeAtmosphericProperties(num_nodes=nn, true_airspeed_in=tas), promotes=["*"])
    p.setup()
    return p


def sweep(rep, seed, k, n):
    """Continuity and slope continuity over a fine altitude sweep in one vector, tropopause included."""
    rng = rng_for(seed, "c12sweep", k)
    h = np.linspace(0, 20000, n) if k % 2 == 0 else np.linspace(10400, 11600, n)
    p = _model(n, bool(k % 2))
    p.set_val("vf_ivc.fltcond|h", h)
    dT = float(rng.uniform(-30, 30))
    p.set_val("vf_ivc.fltcond|TempIncrement", dT * np.ones(n), units="degC")
    V = float(rng.uniform(50, 250))
    p.set_val("fltcond|Utrue" if k % 2 else "fltcond|Ueas", V * np.ones(n), units="m/s")
    p.run_model()
    rep.evaluated(("sweep", k, n)); rep.event("sweep_altitudes", n); rep.event("model_runs")
    dh = h[1] - h[0]
    T, pr = p.get_val("fltcond|T", units="K"), p.get_val("fltcond|p", units="Pa")
    # largest physical lapse rates bound the steps; second differences bound slope jumps
    rep.require("continuity:T", np.max(np.abs(np.diff(T))) <= 0.0100 * dh + 1e-9, worst=float(np.max(np.abs(np.diff(T)))), dh=dh)
    rep.require("continuity:p", np.max(np.abs(np.diff(pr))) <= 12.1 * dh, worst=float(np.max(np.abs(np.diff(pr)))), dh=dh)
    # |f''| of the blends: T'' <= 2*0.0065/1000*~3, p'' of order 2e-3
    for nm, x, bound in (("T", T, 6e-5), ("p", pr, 4e-3)):
        s = np.abs(np.diff(x, 2)) / dh
        rep.require("slope:%s" % nm, np.max(s) <= bound * dh * 1.5 + 1e-8 * np.max(x) / dh, worst=float(np.max(s)), at=float(h[1 + int(np.argmax(s))]), dh=dh)
    rep.require("pressure_decreases", np.all(np.diff(pr) < 0))
    rep.require("density_positive", np.all(p.get_val("fltcond|rho") > 0))


def roundtrip(rep, seed, k, n):
    """EAS -> TAS -> EAS through the two public modes, and ideal gas / Mach / q definitions on the actual outputs."""
    rng = rng_for(seed, "c12rt", k)
    for i in range(n):
        nn = int(rng.choice([1, 3, 11]))
        h = rng.uniform(0, 20000, nn); dT = rng.uniform(-40, 40, nn); V = rng.uniform(5, 300, nn)
        p, q = _model(nn, False), _model(nn, True)
        p.set_val("vf_ivc.fltcond|h", h); p.set_val("vf_ivc.fltcond|TempIncrement", dT); p.set_val("fltcond|Ueas", V, units="m/s"); p.run_model()
        g = {x: p.get_val("fltcond|" + x, units=u).copy() for x, u in dict(T="K", p="Pa", rho="kg/m**3", a="m/s", Utrue="m/s", q="Pa").items()}
        M = p.get_val("fltcond|M").copy()
        q.set_val("vf_ivc.fltcond|h", h); q.set_val("vf_ivc.fltcond|TempIncrement", dT); q.set_val("fltcond|Utrue", g["Utrue"], units="m/s"); q.run_model()
        rep.evaluated(("rt", h.tolist())); rep.event("model_runs", 2)
        rep.close("roundtrip:Ueas", q.get_val("fltcond|Ueas", units="m/s"), V, rtol=1e-9, h=h)
        rep.close("roundtrip:q", q.get_val("fltcond|q", units="Pa"), g["q"], rtol=1e-9)
        rep.close("identity:ideal_gas", g["p"], g["rho"] * 287.058 * g["T"], rtol=1e-5)
        rep.close("identity:mach", M, g["Utrue"] / g["a"], rtol=1e-9)
        rep.close("identity:q_eas", g["q"], 0.5 * 1.225 * V ** 2, rtol=1e-4)
