"""Missions: random aircraft flown through every shipped mission profile, the shipped example aircraft, and the monitors that
audit a converged mission's history (C06 kinematics and closure, C07 mass/energy/forces, C08 takeoff)."""
import numpy as np
import openmdao.api as om
from .core import rng_for, HarnessSkip
from .specs.atmos import T_ref, p_ref, R, RHO0, GAM
from .specs.calculus import weights

G = 9.80665
FT, KN, NM = 0.3048, 1852 / 3600, 1852.0
STEADY = {"BasicMission": ["climb", "cruise", "descent"],
          "FullMissionAnalysis": ["climb", "cruise", "descent"],
          "MissionWithReserve": ["climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"],
          "FullMissionWithReserve": ["climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"]}


# ---- a random aircraft ---------------------------------------------------------------------------
def draw_aircraft(r):
    mtow = float(np.exp(r.uniform(np.log(1500), np.log(8e4))))
    ws = float(r.uniform(100, 450))
    a = dict(integ=str(r.choice(["tag", "component", "nested"])), fuel=bool(r.random() < .85), elec=bool(r.random() < .5),
             mtow=mtow, S=mtow / ws, AR=float(r.uniform(7, 14)), e=float(r.uniform(.7, .85)), cd0=float(r.uniform(.018, .03)),
             cd0_to=float(r.uniform(.025, .05)), clmax=float(r.uniform(1.6, 2.4)), tw=float(r.uniform(.32, .5)), tsfc=float(r.uniform(6e-6, 1.8e-5)),
             frac=float(r.uniform(.4, .6)), lapse=float(r.uniform(.4, .8)))
    a["elec"] = a["elec"] or not a["fuel"]
    return a


def aircraft_class(a):
    from openconcept.aerodynamics import PolarDrag
    from openconcept.energy_storage import SOCBattery
    from openconcept.mission import IntegratorGroup
    from openconcept.utilities import AddSubtractComp, Integrator
    base = IntegratorGroup if a["integ"] == "tag" else om.Group
    tags = ["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"]

    def engine(nn):
        one = np.ones(nn)
        return om.ExecComp(
            ["thrust=throttle*rating*(1-frac+frac*propulsor_active)*(rho/1.225)**lapse", "fuel_flow=tsfc*throttle*rating*(.9+.1*throttle)*(1-frac+frac*propulsor_active)*(rho/1.225)**lapse",
             "elec_load=.2*throttle*rating*60."],
            thrust={"val": one, "units": "N"}, throttle={"val": one}, rating={"val": 1e4, "units": "N"}, propulsor_active={"val": one}, frac={"val": 0.5},
            lapse={"val": .7}, rho={"val": one, "units": "kg/m**3"}, tsfc={"val": 1e-5, "units": "kg/N/s"},
            fuel_flow={"val": one, "units": "kg/s", **({"tags": tags} if a["integ"] != "component" and a["fuel"] else {})}, elec_load={"val": one, "units": "W"})
    EI = ["throttle", "propulsor_active", ("rho", "fltcond|rho"), ("rating", "ac|propulsion|rating"), ("tsfc", "ac|propulsion|tsfc"),
          ("frac", "ac|propulsion|frac"), ("lapse", "ac|propulsion|lapse")]

    class Nested(IntegratorGroup):
        def setup(self):
            self.add_subsystem("core", engine(self.options["num_nodes"]), promotes_inputs=EI, promotes_outputs=["*"])

    class Model(base):
        def initialize(self):
            self.options.declare("num_nodes", default=1)
            self.options.declare("flight_phase", default=None)

        def setup(self):
            nn, fp = self.options["num_nodes"], self.options["flight_phase"]
            if a["integ"] == "nested":
                self.add_subsystem("prop", Nested(num_nodes=nn), promotes_inputs=["throttle", "propulsor_active", "fltcond|rho", "ac|*"],
                                   promotes_outputs=["thrust", "fuel_flow", "elec_load"])
                if a["fuel"]:
                    self.promotes("prop", outputs=["fuel_used", "fuel_used_final"], inputs=["fuel_used_initial"])
            else:
                self.add_subsystem("prop", engine(nn), promotes_inputs=EI, promotes_outputs=["*"])
            if a["integ"] == "component" and a["fuel"]:
                it = self.add_subsystem("intfuel", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"), promotes_inputs=["*"], promotes_outputs=["*"])
                it.add_integrand("fuel_used", rate_name="fuel_flow", val=1.0, units="kg")
            if a["elec"]:
                self.add_subsystem("batt", SOCBattery(num_nodes=nn, efficiency=.97), promotes_inputs=[("battery_weight", "ac|propulsion|battery|weight"), "elec_load"]
                                   + (["duration"] if a["integ"] == "component" else []), promotes_outputs=["SOC", "SOC_final"])
            to = fp in ("v0v1", "v1vr", "v1v0", "rotate", "EngineOutClimbAngle", "AllEngineClimbAngle")
            self.add_subsystem("drag", PolarDrag(num_nodes=nn), promotes_inputs=["fltcond|CL", "ac|geom|*", "fltcond|q", ("CD0", "ac|aero|polar|CD0_TO" if to else "ac|aero|polar|CD0_cruise"),
                                                                               ("e", "ac|aero|polar|e")], promotes_outputs=["drag"])
            if a["fuel"]:
                self.add_subsystem("weight", AddSubtractComp(output_name="weight", input_names=["ac|weights|MTOW", "fuel_used"], units="kg", vec_size=[1, nn], scaling_factors=[1, -1]),
                                   promotes_inputs=["*"], promotes_outputs=["weight"])
            else:
                self.add_subsystem("weight", AddSubtractComp(output_name="weight", input_names=["ac|weights|MTOW", "nothing"], units="kg", vec_size=[1, nn], scaling_factors=[1, 0]),
                                   promotes_inputs=["ac|weights|MTOW"], promotes_outputs=["weight"])
    return Model


def shape(r, lo, hi, n):
    """a schedule between two values: straight, bent or wavy"""
    x = np.linspace(0, 1, n)
    k = r.integers(3)
    y = x if k == 0 else x ** float(r.uniform(.5, 2)) if k == 1 else np.clip(x + .1 * np.sin(2 * np.pi * x), 0, 1)
    return lo + (hi - lo) * y


def draw_mission(r, a, profile, nn, opts):
    """Feasible schedules: speeds above stall, climb within the excess thrust, descent with throttle to spare."""
    S, m = a["S"], a["mtow"]
    vs_stall = np.sqrt(2 * m * G / (RHO0 * S * 1.5))
    k = a["AR"] * a["e"] * np.pi

    def dw(ueas):
        q = .5 * RHO0 * ueas ** 2
        cl = m * G / (q * S)
        return (a["cd0"] + cl ** 2 / k) / cl

    def climb(h0, h1, lo=.25, hi=.55):
        u0, u1 = [vs_stall * r.uniform(1.3, 1.8) for _ in range(2)]
        w = []
        for h, u in ((h0, u0), (h1, u1)):
            sig = p_ref(np.array(h)) / (R * T_ref(np.array(h))) / RHO0
            w.append(float(r.uniform(lo, hi) * (a["tw"] * sig ** a["lapse"] - dw(u)) * u / np.sqrt(sig)))
        return shape(r, *w, nn), shape(r, u0, u1, nn)

    def descent(h1, h0):
        u0, u1 = [vs_stall * r.uniform(1.3, 1.8) for _ in range(2)]
        w = [-float(r.uniform(.2, .7) * dw(u) * u) for u in (u0, u1)]
        return shape(r, *w, nn), shape(r, u0, u1, nn)

    def level(T, drift=200.):
        u = [vs_stall * r.uniform(1.3, 1.7) for _ in range(2)]
        w = float(r.choice([0.0, 1.0])) * r.uniform(-drift, drift) / T
        return np.ones(nn) * w, shape(r, *u, nn)

    def dist(h0, h1, vs, ue):
        t = abs(h1 - h0) / max(np.mean(np.abs(vs)), .3)
        hm = np.array((h0 + h1) / 2)
        return t * float(np.mean(ue)) / np.sqrt(p_ref(hm) / (R * T_ref(hm)) / RHO0), t
    full = profile.startswith("Full")
    hto = 0.0 if full else float(r.choice([0, 1])) * r.uniform(100, 2000)
    h0 = hto + r.uniform(1500, 9500 - hto)
    d = {"takeoff|h": hto, "cruise|h0": h0}
    sch = {"climb": climb(hto, h0), "descent": descent(h0, hto)}
    dc, tc = dist(hto, h0, *sch["climb"])
    dd, td = dist(h0, hto, *sch["descent"])
    u_c = vs_stall * 1.5 * np.exp(h0 / 20000)
    cr = r.uniform(.1, 1) * 2.0e6
    sch["cruise"] = level(cr / u_c)
    d["mission_range"] = float(1.1 * (dc + dd) + cr)
    if profile.endswith("Reserve"):
        h1 = hto + r.uniform(800, 4000)
        d["reserve|h0"], d["loiter|h0"], d["loiter_duration"] = h1, float(r.uniform(300, 1500)), float(r.uniform(300, 2700))
        sch["reserve_climb"] = climb(hto, h1, .4, .6)
        sch["reserve_descent"] = descent(h1, hto)
        a1, t1 = dist(hto, h1, *sch["reserve_climb"])
        a2, t2 = dist(h1, hto, *sch["reserve_descent"])
        if t1 > 1700 or t2 > 7000:
            return None, None
        c2 = r.uniform(2e4, 3e5)
        d["reserve_range"] = float(1.1 * (a1 + a2) + c2)
        sch["reserve_cruise"] = level(c2 / vs_stall / 1.5, 50.)
        sch["loiter"] = level(d["loiter_duration"], 50.)
    return d, sch


def aircraft_inputs(iv, a):
    for n, v, u in (("ac|aero|CLmax_TO", a["clmax"], None), ("ac|aero|polar|e", a["e"], None), ("ac|aero|polar|CD0_TO", a["cd0_to"], None), ("ac|aero|polar|CD0_cruise", a["cd0"], None),
                    ("ac|geom|wing|S_ref", a["S"], "m**2"), ("ac|geom|wing|AR", a["AR"], None), ("ac|weights|MTOW", a["mtow"], "kg"), ("ac|propulsion|rating", a["tw"] * a["mtow"] * G, "N"),
                    ("ac|propulsion|tsfc", a["tsfc"], "kg/N/s"), ("ac|propulsion|frac", a["frac"], None), ("ac|propulsion|lapse", a["lapse"], None),
                    ("ac|propulsion|battery|weight", .5 * a["mtow"], "kg")):
        iv.add_output(n, v, units=u)


def solver(g):
    g.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=30, iprint=-1, atol=1e-8, rtol=1e-30)
    g.nonlinear_solver.options["stall_limit"] = 3
    g.nonlinear_solver.options["stall_tol"] = 1e-9
    g.nonlinear_solver.options["stall_tol_type"] = "abs"
    g.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar", print_bound_enforce=False)
    g.linear_solver = om.DirectSolver(assemble_jac=True)


def build_mission(cfg):
    """cfg: profile, opts, nn, aircraft, params, sched, extra -> (problem, values that were set)"""
    import openconcept.mission as M
    a, nn = cfg["aircraft"], cfg["nn"]
    p = om.Problem(reports=False)
    g = p.model
    iv = g.add_subsystem("dv", om.IndepVarComp(), promotes_outputs=["*"])
    aircraft_inputs(iv, a)
    # options at their documented defaults are left out
    kw = {k: v for k, v in dict(cfg["opts"], num_nodes=nn).items() if (k, v) not in (("num_nodes", 9), ("transition_method", "simplified"), ("include_ground_roll", False))}
    g.add_subsystem("mission", getattr(M, cfg["profile"])(aircraft_model=aircraft_class(a), **kw), promotes=["*"])
    solver(g)
    return p


UN = {"takeoff|h": ("ft", FT), "cruise|h0": ("ft", FT), "reserve|h0": ("ft", FT), "loiter|h0": ("ft", FT), "mission_range": ("NM", NM), "reserve_range": ("NM", NM), "loiter_duration": ("s", 1.0)}


def set_mission(p, cfg):
    nn = cfg["nn"]
    a = cfg["aircraft"]
    for n, v in cfg["params"].items():
        p.set_val(n, v / UN[n][1], units=UN[n][0])
    for ph, (vs, ue) in cfg["sched"].items():
        p.set_val(ph + ".fltcond|vs", np.asarray(vs) / FT * 60, units="ft/min")
        p.set_val(ph + ".fltcond|Ueas", np.asarray(ue) / KN, units="kn")
    for n, (v, u) in cfg.get("extra", {}).items():
        p.set_val(n, v, units=u)
    vst = np.sqrt(2 * a["mtow"] * G / (RHO0 * a["S"] * a["clmax"]))
    if cfg["profile"].startswith("Full"):
        for ph in ("v0v1", "v1v0"):
            p.set_val(ph + ".fltcond|Utrue", np.ones(nn) * vst * .7, units="m/s")
        p.set_val("v1vr.fltcond|Utrue", np.ones(nn) * vst * 1.05, units="m/s")
        p.set_val("takeoff|v1", vst, units="m/s")
        if cfg["opts"].get("transition_method") == "ode":
            p.set_val("rotate.fltcond|Utrue", np.linspace(1.1, 1.2, nn) * vst, units="m/s")
            p.set_val("rotate.accel_vert", np.linspace(.3, 2, nn), units="m/s**2")
            p.set_val("rotate.duration", 3.0, units="s")
    elif cfg["opts"].get("include_ground_roll"):
        p.set_val("takeoff|v2", 1.2 * vst / KN, units="kn")
        p.set_val("groundroll.fltcond|Utrue", np.ones(nn) * vst * .7, units="m/s")


def draw_cfg(seed, profile, k, **fix):
    r = rng_for("mission", seed, profile, k)
    while True:
        a = draw_aircraft(r)
        nn = int(r.choice([3, 5, 5, 7, 7, 9, 11]))
        opts = {}
        if profile == "BasicMission":
            opts["include_ground_roll"] = bool(r.random() < .5)
        if profile.startswith("Full"):
            opts["transition_method"] = str(r.choice(["simplified", "ode"]))
        opts.update(fix.get("opts", {}))
        params, sched = draw_mission(r, a, profile, nn, opts)
        if params is None:
            continue
        extra = {}
        # hot day / cold day, a commanded acceleration, an initial fuel ledger entry, runway friction
        for ph in sched:
            if r.random() < .2:
                extra[ph + ".fltcond|TempIncrement"] = (float(r.uniform(-15, 15)), "degC")
            if r.random() < .1:
                extra[ph + ".zero_accel"] = (float(r.uniform(-.03, .03)), "m/s**2")
        if profile.startswith("Full"):
            for ph, lo, hi in (("v0v1", .02, .05), ("v1vr", .02, .05), ("v1v0", .25, .5)):
                if r.random() < .3:
                    extra[ph + ".braking"] = (float(r.uniform(lo, hi)), None)
            if r.random() < .3:
                for ph in ("v0v1", "v1vr", "v1v0"):
                    extra[ph + ".fltcond|h"] = (float(r.uniform(0, 800)), "m")
            if r.random() < .3:
                for ph in ("v1vr",) + (("rotate",) if opts["transition_method"] == "simplified" else ()):
                    extra[ph + ".vr_vstall_mult"] = (1.08, None)
            if r.random() < .3:
                extra["engineoutclimb.fltcond|h"] = (float(r.uniform(0, 1500)), "m")
        return dict(profile=profile, opts=opts, nn=nn, aircraft=a, params=params, sched=sched, extra=extra, id=(seed, profile, k))


# ---- running -------------------------------------------------------------------------------------
def solved(p, tol=1e-6):
    """the residuals of the whole model, at the state the solver left behind"""
    p.model.run_apply_nonlinear()
    r = p.model._residuals.asarray()
    return bool(np.all(np.isfinite(r)) and np.linalg.norm(r) < tol)


def fly(cfg):
    p = build_mission(cfg)
    p.setup(check=False, mode="fwd")
    set_mission(p, cfg)
    try:
        p.run_model()
    except RuntimeError as ex:
        if "NaN entries found" in str(ex):      # the solver's path ran off
            raise om.AnalysisError(str(ex))
        raise
    return p


class Trace:
    def __init__(self, p, prefix=""):
        self.p, self.prefix = p, prefix

    def __call__(self, name, units=None):
        return np.array(self.p.get_val(self.prefix + name, units=units), float).ravel()

    def has(self, name):
        try:
            self.p.get_val(self.prefix + name)
            return True
        except Exception:
            return False


def settled(t, phases):
    """Throttle away from the solver's bounds (a throttle stuck there means the mission is not flyable)."""
    return all(np.all((t(ph + ".throttle") > .0101) & (t(ph + ".throttle") < 1.0499)) for ph in phases)


# ---- monitors: C06 -------------------------------------------------------------------------------
def atmosphere(rep, t, ph, key):
    h = t(ph + ".fltcond|h", "m")
    dT = t(ph + ".fltcond|TempIncrement", "degC") if t.has(ph + ".fltcond|TempIncrement") else 0.0
    T, p_ = T_ref(h) + dT, p_ref(h)
    rho = p_ / (R * T)
    rep.close(key + "temperature", t(ph + ".fltcond|T", "K"), T, rtol=1e-8, phase=ph)
    rep.close(key + "pressure", t(ph + ".fltcond|p", "Pa"), p_, rtol=1e-8, phase=ph)
    rep.close(key + "density", t(ph + ".fltcond|rho", "kg/m**3"), rho, rtol=1e-8, phase=ph)
    ut = t(ph + ".fltcond|Utrue", "m/s")
    rep.close(key + "equivalent_airspeed", t(ph + ".fltcond|Ueas", "m/s"), ut * np.sqrt(rho / RHO0), rtol=1e-7, phase=ph)
    rep.close(key + "dynamic_pressure", t(ph + ".fltcond|q", "Pa"), .5 * rho * ut ** 2, rtol=1e-7, phase=ph)
    if t.has(ph + ".fltcond|M"):
        rep.close(key + "mach", t(ph + ".fltcond|M"), ut / np.sqrt(GAM * R * T), rtol=1e-7, phase=ph)


def integral(rep, key, state, start, rate, dur, ph, rtol=1e-7, **d):
    W = weights("simpson", len(state))
    dt = dur / max(len(state) - 1, 1)
    want = start + dt * (W @ rate)
    rep.close(key, state, want, rtol=rtol, scale=np.abs(want), phase=ph, duration=dur, **d)


def steady_kinematics(rep, t, ph, sched=None):
    k = "steady:"
    nn = len(t(ph + ".fltcond|h"))
    dur = t(ph + ".duration", "s")[0]
    rep.require(k + "duration_positive", dur >= 0, phase=ph, duration=dur)
    atmosphere(rep, t, ph, k)
    ut, vs, gs = t(ph + ".fltcond|Utrue", "m/s"), t(ph + ".fltcond|vs", "m/s"), t(ph + ".fltcond|groundspeed", "m/s")
    rep.close(k + "groundspeed", gs, np.sqrt(ut ** 2 - vs ** 2), rtol=1e-8, phase=ph)
    rep.close(k + "cosgamma", t(ph + ".fltcond|cosgamma"), gs / ut, rtol=1e-7, phase=ph)
    rep.close(k + "singamma", t(ph + ".fltcond|singamma"), vs / ut, rtol=1e-7, atol=1e-10, phase=ph)
    integral(rep, k + "altitude_is_integral_of_vertical_speed", t(ph + ".fltcond|h", "m"), t(ph + ".ode_integ_phase.fltcond|h_initial", "m")[0], vs, dur, ph)
    integral(rep, k + "range_is_integral_of_groundspeed", t(ph + ".range", "m"), t(ph + ".ode_integ_phase.range_initial", "m")[0], gs, dur, ph)
    for s in ("fltcond|h", "range"):
        rep.close(k + "final_is_last_node", t(ph + ".ode_integ_phase." + s + "_final", "m"), t(ph + "." + s, "m")[-1], rtol=1e-10, atol=1e-9, phase=ph, state=s)
    if sched:
        rep.close(k + "commanded_vertical_speed", vs, sched[0], rtol=1e-10, atol=1e-12, phase=ph)
        rep.close(k + "commanded_airspeed", t(ph + ".fltcond|Ueas", "m/s"), sched[1], rtol=1e-10, phase=ph)
    rep.event("steady_phases_audited"); rep.event("nodes_audited", nn)


def joined(rep, t, a, b, key="join:"):
    """range and altitude run on from one phase to the next"""
    for s in ("range", "fltcond|h"):
        rep.close(key + s, t(b + "." + s, "m")[0], t(a + "." + s, "m")[-1], rtol=1e-9, atol=1e-6, earlier=a, later=b)


def closure(rep, t, profile, params, ground_roll=False):
    """The requested mission is the one flown (params in SI)."""
    h = lambda ph, i: t(ph + ".fltcond|h", "m")[i]
    x = lambda ph, i: t(ph + ".range", "m")[i]
    A = 1e-3
    full = profile.startswith("Full")
    rep.close("closure:cruise_altitude", h("climb", -1), params["cruise|h0"], rtol=1e-7, atol=A)
    rep.close("closure:mission_range", x("descent", -1), params["mission_range"], rtol=1e-7, atol=A)
    rep.close("closure:landing_altitude", h("descent", -1), params["takeoff|h"], rtol=1e-7, atol=A)
    if not full:
        rep.close("closure:initial_altitude", h("climb", 0), params["takeoff|h"], rtol=1e-7, atol=A)
        if not ground_roll:
            rep.close("closure:initial_range", x("climb", 0), 0.0, atol=1e-9)
    joined(rep, t, "climb", "cruise"); joined(rep, t, "cruise", "descent")
    if profile.endswith("Reserve"):
        rep.close("closure:reserve_climb_starts_at_landing_altitude", h("reserve_climb", 0), params["takeoff|h"], rtol=1e-7, atol=A)
        rep.close("closure:reserve_altitude", h("reserve_climb", -1), params["reserve|h0"], rtol=1e-7, atol=A)
        rep.close("closure:reserve_landing_altitude", h("reserve_descent", -1), params["takeoff|h"], rtol=1e-7, atol=A)
        rep.close("closure:reserve_range", x("reserve_descent", -1) - x("descent", -1), params["reserve_range"], rtol=1e-7, atol=A)
        rep.close("closure:reserve_range_continues", x("reserve_climb", 0), x("descent", -1), rtol=1e-9)
        joined(rep, t, "reserve_climb", "reserve_cruise"); joined(rep, t, "reserve_cruise", "reserve_descent")
        rep.close("closure:loiter_altitude", h("loiter", 0), params["loiter|h0"], rtol=1e-9, atol=1e-6)
        rep.close("closure:loiter_duration", t("loiter.duration", "s"), params["loiter_duration"], rtol=1e-9)
        rep.close("closure:loiter_range_continues", x("loiter", 0), x("reserve_descent", -1), rtol=1e-9)


# ---- monitors: C07 -------------------------------------------------------------------------------
def forces(rep, t, ph, S):
    k = "forces:"
    m, q, CL = t(ph + ".weight", "kg"), t(ph + ".fltcond|q", "Pa"), t(ph + ".fltcond|CL")
    L, D, T = t(ph + ".lift", "N"), t(ph + ".drag", "N"), t(ph + ".thrust", "N")
    ut, vs = t(ph + ".fltcond|Utrue", "m/s"), t(ph + ".fltcond|vs", "m/s")
    sg = vs / ut
    cg = np.sqrt(1 - sg ** 2)
    rep.close(k + "lift_carries_weight", L, m * G * cg, rtol=1e-6, phase=ph)
    rep.close(k + "lift_from_CL", L, CL * q * S, rtol=1e-7, phase=ph)
    ac = (T - D) / m - G * sg
    rep.close(k + "acceleration_is_net_force_over_mass", t(ph + ".accel_horiz", "m/s**2"), ac, atol=1e-6, phase=ph)
    rep.close(k + "steady", ac, t(ph + ".zero_accel", "m/s**2"), atol=2e-6, phase=ph)
    rep.event("force_balances", len(m))


def ledger(rep, t, phases, mtow, flow, used, initial=0.0, weight0=None):
    """weight lost = fuel burned = integral of fuel flow, along the chain of phases; flow/used: names below the phase"""
    burned = initial
    for i, ph in enumerate(phases):
        f, u, w = t(ph + "." + flow, "kg/s"), t(ph + "." + used, "kg"), t(ph + ".weight", "kg")
        integral(rep, "ledger:fuel_used_is_integral_of_flow", u, burned, f, t(ph + ".duration", "s")[0], ph, rtol=1e-7)
        rep.close("ledger:weight_lost_is_fuel_burned", (mtow if weight0 is None else weight0) - w, u - (0.0 if weight0 is None else initial), rtol=1e-7, atol=1e-7 * mtow, phase=ph)
        burned = u[-1]
        rep.event("ledger_phases")
    return burned


def charge(rep, t, phases, load, soc, capacity_J, initial=1.0, mult=1.0):
    s = initial
    for ph in phases:
        P, x = t(ph + "." + load, "W") * mult, t(ph + "." + soc)
        integral(rep, "ledger:charge_falls_by_energy_drawn", x, s, -P / capacity_J, t(ph + ".duration", "s")[0], ph, rtol=1e-7)
        s = x[-1]
        rep.event("charge_phases")


# ---- monitors: C08 -------------------------------------------------------------------------------
def roll(rep, t, ph, S, v_start=None, v_end=None, x_start=None, reverse=False, slow=2.0):
    k = "roll:%s:" % ph
    atmosphere(rep, t, ph, "roll:")
    u, m, q, CL = t(ph + ".fltcond|Utrue", "m/s"), t(ph + ".weight", "kg"), t(ph + ".fltcond|q", "Pa"), t(ph + ".fltcond|CL")
    D, T, br = t(ph + ".drag", "N"), t(ph + ".thrust", "N"), t(ph + ".braking")
    L = CL * q * S
    rep.close(k + "lift", t(ph + ".lift", "N"), L, rtol=1e-7)
    rep.close(k + "ground_CL", CL, .1, rtol=1e-12)
    a = (T - D - br * np.maximum(m * G - L, 0)) / m
    rep.close(k + "acceleration_is_net_force_over_mass", t(ph + ".accel_horiz", "m/s**2"), a, rtol=1e-7, atol=1e-8)
    dur = t(ph + ".duration", "s")[0]
    if reverse:
        integral(rep, k + "speed_is_integral_of_acceleration", u[::-1], slow, -a[::-1], dur, ph)
    else:
        integral(rep, k + "speed_is_integral_of_acceleration", u, v_start if v_start is not None else u[0], a, dur, ph)
    if v_start is not None:
        rep.close(k + "starts_at", u[0], v_start, rtol=1e-6)
    if v_end is not None:
        rep.close(k + "ends_at", u[-1], v_end, rtol=1e-6)
    rep.close(k + "groundspeed", t(ph + ".fltcond|groundspeed", "m/s"), u, rtol=1e-9)
    integral(rep, k + "distance_is_integral_of_groundspeed", t(ph + ".range", "m"), x_start if x_start is not None else t(ph + ".range", "m")[0], u, dur, ph)
    rep.event("rolls_audited"); rep.event("roll_nodes", len(u))


def rotate_arc(rep, t, S, vr, v2, x0, hob=10.66, top=35 * FT, start=None):
    """lift-off and climb over the obstacle, as a circular arc and a straight climb"""
    x1, dur = t("rotate.range_final", "m")[0], t("rotate.duration", "s")[0]
    ue = t("rotate.fltcond|Ueas", "m/s")
    rep.close("takeoff:rotate:airspeed_from_vr_to_v2", ue, np.linspace(vr, v2, len(ue)), rtol=1e-8)
    atmosphere(rep, t, "rotate", "rotate:")
    m, u = t("rotate.weight", "kg"), t("rotate.fltcond|Utrue", "m/s")
    rep.close("takeoff:rotate:CL", t("rotate.fltcond|CL"), m * G / (t("rotate.fltcond|q", "Pa") * S), rtol=1e-7)
    gam = np.arcsin((t("rotate.thrust", "N") - t("rotate.drag", "N")) / (m * G))
    rep.close("takeoff:rotate:climb_angle", t("rotate.gamma", "rad"), gam, rtol=1e-7, atol=1e-9)
    # circular arc flown at the first node's speed and angle, straight climb at the last node's
    Rr = u[0] ** 2 / .2 / G
    if Rr * (1 - np.cos(gam[0])) > hob:
        s, hh = np.sqrt(Rr ** 2 - (Rr - hob) ** 2), hob
        rep.event("obstacle_cleared_on_the_arc")
    else:
        s, hh = Rr * np.sin(gam[0]), Rr * (1 - np.cos(gam[0]))
        rep.event("obstacle_cleared_in_the_climb")
    sc = (hob - hh) / np.tan(gam[-1])
    rep.close("takeoff:rotate:distance_to_obstacle", x1 - x0, s + sc, rtol=1e-6)
    rep.close("takeoff:rotate:time_to_obstacle", dur, s / u[0] + sc / u[-1], rtol=1e-6)
    rep.close("takeoff:rotate:range_history", t("rotate.range", "m"), np.linspace(x0, x1, len(u)), rtol=1e-8)
    h = t("rotate.fltcond|h", "m")
    rep.close("takeoff:rotate:altitude_rises_evenly", h, np.linspace(h[0], top, len(u)), rtol=1e-8)
    rep.close("takeoff:rotate:final_altitude", t("rotate.fltcond|h_final", "m"), top, rtol=1e-8)
    if start is None and abs(h[0] - 1.0) < 1e-9:
        rep.violate("takeoff:rotate:starts_one_metre_above_the_runway", altitude=h[0])
    else:
        rep.close("takeoff:rotate:starts_at_the_runway", h[0], start or 0.0, rtol=1e-9, atol=1e-9)


def rotate_ode(rep, t, S, clmax, u0, x0, mult=.83, top=35 * FT):
    """lift-off as a trajectory in two dimensions"""
    dur = t("rotate.duration", "s")[0]
    u, vs, m = t("rotate.fltcond|Utrue", "m/s"), t("rotate.fltcond|vs", "m/s"), t("rotate.weight", "kg")
    q = t("rotate.fltcond|q", "Pa")
    atmosphere(rep, t, "rotate", "rotate:")
    CL = mult * clmax
    rep.close("takeoff:rotate:CL", t("rotate.fltcond|CL"), CL, rtol=1e-9)
    L, D, T = CL * q * S, t("rotate.drag", "N"), t("rotate.thrust", "N")
    sg = vs / u
    cg = np.sqrt(1 - sg ** 2)
    ah = (T - D - t("rotate.braking") * np.maximum(m * G - L, 0)) / m - G * sg
    av = np.clip((L * cg + (T - D) * sg) / m - G, -G, 2.5 * G)
    rep.close("takeoff:rotate:horizontal_acceleration", t("rotate.accel_horiz", "m/s**2"), ah, rtol=1e-6, atol=1e-7)
    rep.close("takeoff:rotate:vertical_acceleration", t("rotate.accel_vert", "m/s**2"), av, rtol=1e-6, atol=1e-6)
    integral(rep, "takeoff:rotate:speed", u, u0, ah, dur, "rotate")
    integral(rep, "takeoff:rotate:vertical_speed", vs, 0.0, av, dur, "rotate")
    integral(rep, "takeoff:rotate:height", t("rotate.fltcond|h", "m"), 0.0, vs, dur, "rotate")
    integral(rep, "takeoff:rotate:distance", t("rotate.range", "m"), x0, np.sqrt(u ** 2 - vs ** 2), dur, "rotate")
    rep.close("takeoff:rotate:clears_obstacle", t("rotate.fltcond|h", "m")[-1], top, rtol=1e-6)


def takeoff(rep, t, S, clmax, mtow, opts, extra, failed_thrust=None, nn=None):
    """The balanced-field takeoff of FullMissionAnalysis / FullMissionWithReserve."""
    vst = np.sqrt(2 * mtow * G / (RHO0 * S * clmax))
    mult = extra.get("v1vr.vr_vstall_mult", (1.1, None))[0]
    v1, vr = t("takeoff|v1", "m/s")[0], mult * vst
    rep.close("takeoff:vr_is_multiple_of_stall", t("v1vr.takeoff|vr", "m/s"), vr, rtol=1e-9)
    roll(rep, t, "v0v1", S, 2.0, v1, 0.0)
    roll(rep, t, "v1vr", S, v1, vr, t("v0v1.range", "m")[-1])
    roll(rep, t, "v1v0", S, v1, 2.0, t("v0v1.range", "m")[-1], reverse=True)
    br = dict(v0v1=.03, v1vr=.03, v1v0=.4)
    for ph, b in br.items():
        rep.close("takeoff:%s:friction" % ph, t(ph + ".braking"), extra.get(ph + ".braking", (b, None))[0], rtol=1e-12)
        rep.close("takeoff:%s:throttle" % ph, t(ph + ".throttle"), extra.get(ph + ".throttle", (0.0 if ph == "v1v0" else 1.0, None))[0], atol=1e-12)
        rep.close("takeoff:%s:engines" % ph, t(ph + ".propulsor_active"), 1.0 if ph == "v0v1" else 0.0, atol=1e-12)
    # lift-off and climb to the obstacle
    x0, x1 = t("v1vr.range", "m")[-1], t("rotate.range_final", "m")[0]
    rep.close("takeoff:rotate:engines", t("rotate.propulsor_active"), 0.0, atol=1e-12)
    rep.close("takeoff:rotate:throttle", t("rotate.throttle"), extra.get("rotate.throttle", (1.0, None))[0], atol=1e-12)
    if opts["transition_method"] == "simplified":
        rotate_arc(rep, t, S, extra.get("rotate.vr_vstall_mult", (1.1, None))[0] * vst, 1.2 * vst, x0)
    else:
        rotate_ode(rep, t, S, clmax, t("v1vr.fltcond|Utrue", "m/s")[-1], x0)
    rep.close("takeoff:climb_starts_over_the_obstacle", t("climb.fltcond|h", "m")[0], 35 * FT, rtol=1e-6)
    rep.close("takeoff:range_runs_on_into_climb", t("climb.range", "m")[0], x1, rtol=1e-9)
    # the decision speed
    go, stop = x1, t("v1v0.range", "m")[-1]
    balanced = abs(go - stop) <= 1e-5 * go
    rep.event("field_balanced" if balanced else "field_limited_by_vr")
    if not balanced:
        rep.require("takeoff:balanced_or_v1_equals_vr", abs(v1 - vr) <= 1e-4 * vr, v1=v1, vr=vr, go=go, stop=stop)
        rep.require("takeoff:v1_at_vr_only_when_stopping_is_shorter", stop <= go * (1 + 1e-6), v1=v1, vr=vr, go=go, stop=stop)
    else:
        rep.require("takeoff:v1_not_beyond_vr", v1 <= vr * (1 + 1e-6), v1=v1, vr=vr)
    # one-engine-out climb gradient at v2
    e = "engineoutclimb"
    ue = t(e + ".fltcond|Ueas", "m/s")
    rep.close("takeoff:engineout:v2", ue, 1.2 * vst, rtol=1e-9)
    atmosphere(rep, t, e, "engineout:")
    rep.close("takeoff:engineout:engines", t(e + ".propulsor_active"), 0.0, atol=1e-12)
    rep.close("takeoff:engineout:CL", t(e + ".fltcond|CL"), mtow * G / (t(e + ".fltcond|q", "Pa") * S), rtol=1e-8)
    rep.close("takeoff:engineout:climb_angle", t(e + ".gamma", "rad"), np.arcsin((t(e + ".thrust", "N") - t(e + ".drag", "N")) / (mtow * G)), rtol=1e-7, atol=1e-10)
    rep.event("takeoffs_audited")


def synthetic_thrust(rep, t, a, ph):
    """the random aircraft's own engine law, with the engines that are running in this phase"""
    th, act, rho = t(ph + ".throttle"), t(ph + ".propulsor_active"), t(ph + ".fltcond|rho", "kg/m**3")
    want = th * a["tw"] * a["mtow"] * G * (1 - a["frac"] + a["frac"] * act) * (rho / 1.225) ** a["lapse"]
    rep.close("engine:thrust_with_running_engines", t(ph + ".thrust", "N"), want, rtol=1e-8, atol=1e-6, phase=ph)
    cl, q = t(ph + ".fltcond|CL"), t(ph + ".fltcond|q", "Pa")
    cd0 = a["cd0"] if ph in ("climb", "cruise", "descent", "loiter") or ph.startswith("reserve") else a["cd0_to"]
    rep.close("engine:drag_polar", t(ph + ".drag", "N"), q * a["S"] * (cd0 + cl ** 2 / (np.pi * a["AR"] * a["e"])), rtol=1e-8, phase=ph)


# ---- phases on their own -------------------------------------------------------------------------
def fly_phase(r, kind):
    """One phase of the takeoff without a profile around it, with its constants and its start set to other values."""
    import openconcept.mission as M
    a = draw_aircraft(r)
    nn = 1 if kind.endswith("ClimbAngle") else int(r.choice([3, 5, 7, 9, 11]))
    vst = np.sqrt(2 * a["mtow"] * G / (RHO0 * a["S"] * a["clmax"]))
    opts, sets, x = {}, {}, {}
    some = lambda k, lo, hi, u=None, pr=.6: sets.__setitem__(k, (float(r.uniform(lo, hi)), u)) if r.random() < pr else None
    some("fltcond|TempIncrement", -15, 15, "degC", .3)
    if kind in ("v0v1", "v1vr", "v1v0"):
        cls = M.GroundRollPhase
        some("fltcond|h", 0, 1200, "m"); some("vr_vstall_mult", 1.05, 1.2)
        some("braking", *((.25, .5) if kind == "v1v0" else (.015, .05)))
        if kind != "v1vr":
            some("zero_speed", 1.6, 4, "m/s")
            sets["takeoff|v1"] = (vst * float(r.uniform(.7, 1.05)), "m/s")
        else:
            sets["fltcond|Utrue_initial"] = (vst * float(r.uniform(.8, 1.0)), "m/s")
        if kind != "v0v1":
            sets["range_initial"] = (float(r.uniform(0, 900)), "m")
        sets["fltcond|Utrue"] = (np.ones(nn) * vst * .8, "m/s")
    elif kind == "rotate":
        cls = M.RobustRotationPhase
        if r.random() < .5:
            opts["h_obstacle"] = float(r.uniform(12, 20))
        if r.random() < .6:
            sets["h_initial"] = (float(r.uniform(0, 5)), "m")
        some("vr_vstall_mult", 1.05, 1.15); some("v2_vstall_mult", 1.2, 1.3)
        sets["range_initial"] = (float(r.uniform(100, 900)), "m")
    elif kind == "rotate_ode":
        cls = M.RotationPhase
        some("h_obs", 30, 60, "ft"); some("CL_rotate_mult", .8, .9)
        sets["range_initial"] = (float(r.uniform(100, 900)), "m")
        sets["fltcond|Utrue_initial"] = (vst * float(r.uniform(1.1, 1.2)), "m/s")
        sets["fltcond|Utrue"] = (np.linspace(1.15, 1.2, nn) * vst, "m/s")
        sets["accel_vert"] = (np.linspace(.3, 2, nn), "m/s**2")
        sets["duration"] = (3.0, "s")
    else:
        cls = M.ClimbAnglePhase
        some("v2_vstall_mult", 1.15, 1.35); some("fltcond|h", 0, 2500, "m")
        if a["fuel"]:     # the gradient is that at takeoff weight, whatever has been burned
            some("fuel_used_initial", .01 * a["mtow"], .1 * a["mtow"], "kg")
    fp = {"rotate_ode": "rotate"}.get(kind, kind)
    name = "rotate" if fp == "rotate" else fp
    p = om.Problem(reports=False)
    iv = p.model.add_subsystem("dv", om.IndepVarComp(), promotes_outputs=["*"])
    aircraft_inputs(iv, a)
    p.model.add_subsystem(name, cls(num_nodes=nn, aircraft_model=aircraft_class(a), flight_phase=fp, **opts), promotes_inputs=["ac|*"])
    solver(p.model)
    p.setup(check=False, mode="fwd")
    for k, (v, u) in sets.items():
        if k == "fltcond|TempIncrement" and kind.endswith("ClimbAngle"):
            continue
        p.set_val(name + "." + k, v, units=u)
    sets = {k: v for k, v in sets.items() if not (k == "fltcond|TempIncrement" and kind.endswith("ClimbAngle"))}
    p.run_model()
    return p, a, vst, opts, sets, name


def inside(t, name, kind):
    """duration off the bounds its balance keeps it in"""
    lo, hi = {"v1vr": (0.0, 12.0), "rotate_ode": (.1, 15.0)}.get(kind, (1.0, 100.0))
    return lo + 1e-6 < t(name + ".duration", "s")[0] < hi - 1e-6


def audit_phase(rep, kind, p, a, vst, opts, sets, name):
    t = Trace(p)
    S, mtow = a["S"], a["mtow"]
    get = lambda k, d: sets[k][0] if k in sets else d
    for k, (v, u) in sets.items():
        if k not in ("fltcond|Utrue", "accel_vert", "duration"):
            rep.close("phase:setting_is_used:" + k, t(name + "." + k, u), v, rtol=1e-12, phase=kind)
    active, throttle = dict(v0v1=1.0, AllEngineClimbAngle=1.0).get(kind, 0.0), 0.0 if kind == "v1v0" else 1.0
    rep.close("phase:engines", t(name + ".propulsor_active"), active, atol=1e-12, phase=kind)
    rep.close("phase:throttle", t(name + ".throttle"), throttle, atol=1e-12, phase=kind)
    synthetic_thrust(rep, t, a, name)
    x0 = get("range_initial", 0.0)
    if kind in ("v0v1", "v1vr", "v1v0"):
        br = .4 if kind == "v1v0" else .03
        rep.close("phase:friction", t(name + ".braking"), get("braking", br), rtol=1e-12, phase=kind)
        vr, zero = get("vr_vstall_mult", 1.1) * vst, get("zero_speed", 2.0)
        rep.close("phase:vr_is_multiple_of_stall", t(name + ".takeoff|vr", "m/s"), vr, rtol=1e-9, phase=kind)
        if kind == "v0v1":
            roll(rep, t, name, S, zero, sets["takeoff|v1"][0], 0.0)
        elif kind == "v1vr":
            roll(rep, t, name, S, sets["fltcond|Utrue_initial"][0], vr, x0)
        else:
            roll(rep, t, name, S, sets["takeoff|v1"][0], zero, x0, reverse=True, slow=zero)
    elif kind == "rotate":
        hob = opts.get("h_obstacle")
        if hob is not None and abs(t("rotate.fltcond|h_final", "m")[0] - 35 * FT) < 1e-9:
            rep.violate("takeoff:rotate:h_obstacle_option_ignored", asked=hob)
            hob = None
        rotate_arc(rep, t, S, get("vr_vstall_mult", 1.1) * vst, get("v2_vstall_mult", 1.2) * vst, x0, hob or 10.66, hob or 35 * FT, get("h_initial", None))
    elif kind == "rotate_ode":
        rotate_ode(rep, t, S, a["clmax"], sets["fltcond|Utrue_initial"][0], x0, get("CL_rotate_mult", .83), get("h_obs", 35.0) * FT)
    else:
        v2 = get("v2_vstall_mult", 1.2) * vst
        rep.close("phase:v2_is_multiple_of_stall", t(name + ".takeoff|v2", "m/s"), v2, rtol=1e-9, phase=kind)
        rep.close("phase:climbs_at_v2", t(name + ".fltcond|Ueas", "m/s"), v2, rtol=1e-9, phase=kind)
        rep.close("phase:climb_altitude", t(name + ".fltcond|h", "m"), get("fltcond|h", 0.0), atol=1e-9, phase=kind)
        atmosphere(rep, t, name, "phase:")
        rep.close("phase:CL", t(name + ".fltcond|CL"), mtow * G / (t(name + ".fltcond|q", "Pa") * S), rtol=1e-8, phase=kind)
        rep.close("phase:climb_angle", t(name + ".gamma", "rad"), np.arcsin((t(name + ".thrust", "N") - t(name + ".drag", "N")) / (mtow * G)), rtol=1e-7, atol=1e-10, phase=kind)
    rep.event("phases_on_their_own:" + kind)
