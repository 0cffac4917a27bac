"""The shipped example aircraft: how to run them, perturb their missions and what their histories are called."""
import importlib
import numpy as np
from . import mission as M
from .core import quiet, HarnessSkip, rng_for

# fuel: (flow, used) below a phase; batt: (load, SOC, max_energy) below a phase; to: takeoff modelled
X = {
    "TBM850": dict(run="run_tbm_analysis", rerun=True, profile="FullMissionAnalysis", fuel=("propmodel.fuel_flow", "intfuel.fuel_used"), seconds=3),
    "KingAirC90GT": dict(run="run_kingair_analysis", profile="FullMissionAnalysis", fuel=("fuel_flow", "fuel_used"), seconds=6),
    "Caravan": dict(run="run_caravan_analysis", profile="FullMissionAnalysis", fuel=("fuel_flow", "fuel_used"), seconds=3),
    "ElectricSinglewithThermal": dict(run="run_electricsingle_analysis", profile="FullMissionAnalysis", opts={"transition_method": "ode"},
                                      batt=("propmodel.batt1.elec_load", "propmodel.batt1.SOC", "propmodel.batt1.max_energy"), seconds=5),
    "HybridTwin": dict(run="run_hybrid_twin_analysis", profile="FullMissionAnalysis", fuel=("fuel_flow", "fuel_used"),
                       batt=("propmodel.batt1.elec_load", "propmodel.batt1.SOC", "propmodel.batt1.max_energy"), seconds=4),
    "HybridTwin_thermal": dict(run="run_hybrid_twin_thermal_analysis", profile="FullMissionAnalysis", fuel=("fuel_flow", "fuel_used"),
                               batt=("propmodel.batt1.elec_load", "propmodel.batt1.SOC", "propmodel.batt1.max_energy"), seconds=8),
    "B738": dict(run="run_738_analysis", profile="MissionWithReserve", fuel=("fuel_flow", "fuel_used"), seconds=4),
    "B738_VLM_drag": dict(run="run_738_analysis", profile="MissionWithReserve", fuel=("fuel_flow", "fuel_used"), seconds=10),
    "B738_sizing": dict(run="run_738_sizing_analysis", kw={"num_nodes": 5}, profile="FullMissionWithReserve", prefix="mission.",
                        fuel=("fuel_burn_integ.fuel_flow", "fuel_burn_integ.fuel_burn"), seconds=9),
    "N3_HybridSingleAisle_Refrig": dict(run="run_hybrid_sa_analysis", kw={"plots": False}, profile="BasicMission", opts={"include_ground_roll": True}, mtow="ac|design_mission|TOW",
                                        fuel=("fuel_flow", "fuel_used"), batt=("battery.elec_load", "battery.SOC", "battery.max_energy"), tol=1e-2, seconds=20),
    "minimal": dict(run="setup_problem", rerun=True, profile="BasicMission", prefix="mission.", mtow="ac|weights|TOW", seconds=1),
    "minimal_integrator": dict(run="setup_problem", model="MissionAnalysisWithFuelBurn", rerun=True, profile="BasicMission", prefix="mission.", mtow="ac|weights|TOW",
                               fuel=("fuel_flow_calc.fuel_flow", "fuel_integrator.fuel_burned"), seconds=1),
}


def start(name):
    """The example exactly as shipped, run once."""
    x = X[name]
    try:
        m = importlib.import_module("openconcept.examples." + name)
        f = getattr(m, x["run"])
    except (ImportError, AttributeError) as e:
        raise HarnessSkip("example not available: %s" % e)
    kw = dict(x.get("kw", {}))
    if "model" in x:
        kw["model"] = getattr(m, x["model"])
    p = f(**kw)
    if x.get("rerun"):
        p.run_model()
    return p


def tighten(p, x):
    nl = p.model.nonlinear_solver
    nl.options["iprint"] = -1
    nl.options["maxiter"] = 30
    nl.options["atol"], nl.options["rtol"] = 1e-8, 1e-30
    nl.options["stall_limit"], nl.options["stall_tol"], nl.options["stall_tol_type"] = 3, 1e-7, "abs"
    nl.options["err_on_non_converge"] = False
    p.run_model()


def params(p, x):
    g = lambda n, u: float(np.ravel(p.get_val(x.get("prefix", "") + n, units=u))[0])
    d = {"takeoff|h": g("takeoff|h", "m"), "cruise|h0": g("cruise|h0", "m"), "mission_range": g("mission_range", "m")}
    if x["profile"].endswith("Reserve"):
        d.update({"reserve|h0": g("reserve|h0", "m"), "loiter|h0": g("loiter|h0", "m"), "loiter_duration": g("loiter_duration", "s"), "reserve_range": g("reserve_range", "m")})
    return d


def sched(p, x):
    pre = x.get("prefix", "")
    return {ph: (np.array(p.get_val(pre + ph + ".fltcond|vs", units="m/s")), np.array(p.get_val(pre + ph + ".fltcond|Ueas", units="m/s"))) for ph in M.STEADY[x["profile"]]}


def vary(p, x, name, seed, k):
    """A different feasible mission for the same aircraft: schedules, altitude and range moved a little."""
    r = rng_for("example", seed, name, k)
    pre = x.get("prefix", "")
    for ph in M.STEADY[x["profile"]]:
        for v, w in (("fltcond|vs", .1), ("fltcond|Ueas", .04)):
            a = np.array(p.get_val(pre + ph + "." + v, units="m/s"))
            f = 1 - w * r.random() if v.endswith("vs") else 1 + w * r.uniform(-1, 1)
            p.set_val(pre + ph + "." + v, a * f * (1 + .02 * np.sin(np.linspace(0, r.uniform(0, 3), a.size))), units="m/s")
    p.set_val(pre + "cruise|h0", p.get_val(pre + "cruise|h0", units="m") * r.uniform(.9, 1.0), units="m")
    p.set_val(pre + "mission_range", p.get_val(pre + "mission_range", units="m") * r.uniform(.85, 1.1), units="m")
    if not x["profile"].startswith("Full") and r.random() < .5:
        p.set_val(pre + "takeoff|h", r.uniform(100, 600), units="m")


def fly(name, seed, k):
    """k == 0: the shipped mission; otherwise a varied one. -> (problem, trace, spec, converged)"""
    x = X[name]
    with quiet():
        p = start(name)
        if k:
            vary(p, x, name, seed, k)
        tighten(p, x)
        ok = M.solved(p, x.get("tol", 1e-5))
    t = M.Trace(p, x.get("prefix", ""))
    return p, t, x, ok and M.settled(t, M.STEADY[x["profile"]])


def top(p, name, units=None):
    return float(np.ravel(p.get_val(name, units=units))[0])
