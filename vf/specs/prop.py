"""Motors, generators, turboshafts, propellers, splitters and the assembled simple propulsion systems; batteries."""
import numpy as np
from scipy.interpolate import make_interp_spline
from ..spec import Spec, U, LU, MIX, CH, newton, direct
from .aero import fl, some

P = "openconcept.propulsion:"
PR = "openconcept.propulsion.propeller:"
S = "openconcept.propulsion.systems:"
E = "openconcept.energy_storage:"
ODD = (3, 5, 11, 21)
THR = U(0, 1.3, edges=(0.0, 1.0))


def _lin(o, R, wi, wb, ci, cb):
    return R * o.get("weight_inc", wi) + o.get("weight_base", wb), R * o.get("cost_inc", ci) + o.get("cost_base", cb)


def motor(i, o, thr="throttle", rat="elec_power_rating"):
    e = o.get("efficiency", 1.0)
    load = i[thr] * i[rat]
    w, c = _lin(o, i[rat], 1 / 5000, 0.0, 100 / 745, 1.0)
    return {"shaft_power_out": e * load, "heat_out": load - e * load, "elec_load": load, "component_cost": c, "component_weight": w, "component_sizing_margin": i[thr]}


LINOPT = dict(weight_inc=fl(1e-5, 1e-3), weight_base=fl(0, 100), cost_inc=fl(.01, 1), cost_base=fl(0, 100))


def _inv_motor(rep, i, o, g):
    rep.close("SimpleMotor:balance", g["shaft_power_out"] + g["heat_out"], g["elec_load"], rtol=1e-12, atol=1e-9)


def _inv_gen(rep, i, o, g):
    rep.close("SimpleGenerator:balance", g["elec_power_out"] + g["heat_out"], i["shaft_power_in"], rtol=1e-12, atol=1e-9)


Spec(P + "SimpleMotor", "C15", {"throttle": (None, "n", THR), "elec_power_rating": ("W", None, LU(1e3, 5e6))},
     {"shaft_power_out": "W", "heat_out": "W", "elec_load": "W", "component_cost": "USD", "component_weight": "kg", "component_sizing_margin": None},
     opts=lambda r: some(r, .7, efficiency=fl(.5, 1), **LINOPT), ref=motor, inv=_inv_motor, atol=1e-9)


def generator(i, o):
    e = o.get("efficiency", 1.0)
    w, c = _lin(o, i["elec_power_rating"], 1 / 5000, 0.0, 100 / 745, 1.0)
    P_ = i["shaft_power_in"]
    return {"elec_power_out": e * P_, "heat_out": P_ - e * P_, "component_cost": c, "component_weight": w, "component_sizing_margin": e * P_ / i["elec_power_rating"]}


Spec(P + "SimpleGenerator", "C15", {"shaft_power_in": ("W", "n", MIX(U(0, 1e6), CH(0.0))), "elec_power_rating": ("W", None, LU(1e3, 5e6))},
     {"elec_power_out": "W", "heat_out": "W", "component_cost": "USD", "component_weight": "kg", "component_sizing_margin": None},
     opts=lambda r: some(r, .7, efficiency=fl(.5, 1), **LINOPT), ref=generator, inv=_inv_gen, atol=1e-9)


def turboshaft(i, o):
    R, th = i["shaft_power_rating"], i["throttle"]
    w, c = _lin(o, R, 0.0, 0.0, 1.04, 0.0)
    # default specific consumption: 0.6 lb/hp/h in kg/W/s
    return {"shaft_power_out": R * th, "fuel_flow": R * th * o.get("psfc", 0.6 * 1.68965774e-7), "component_cost": c, "component_weight": w, "component_sizing_margin": th}


Spec(P + "SimpleTurboshaft", "C15", {"throttle": (None, "n", THR), "shaft_power_rating": ("W", None, LU(1e3, 5e6))},
     {"shaft_power_out": "W", "fuel_flow": "kg/s", "component_cost": "USD", "component_weight": "kg", "component_sizing_margin": None},
     opts=lambda r: some(r, .7, psfc=fl(3e-8, 2e-7), **LINOPT), ref=turboshaft)

# ------------------------------------------------------------------ propeller
_R_J = np.arange(0.2, 2.81, 0.2)[:14]
_R_CP = np.arange(9) / 10
_R = np.array([[.45, .6, .72, .75, .70, .65, .6, .55, .5, .45, .40, .35, .3, .25], [.35, .6, .74, .83, .86, .88, .9, .9, .88, .85, .83, .8, .75, .7],
               [.2, .35, .55, .7, .8, .85, .87, .9, .91, .92, .9, .9, .88, .87], [.12, .22, .36, .51, .66, .75, .8, .85, .87, .88, .91, .905, .902, .9],
               [.07, .15, .29, .36, .45, .65, .73, .77, .83, .85, .87, .875, .88, .895], [.05, .12, .25, .32, .38, .50, .61, .72, .77, .79, .83, .85, .86, .865],
               [.04, .11, .19, .26, .33, .40, .51, .61, .71, .74, .78, .815, .83, .85], [.035, .085, .16, .22, .28, .35, .41, .52, .605, .69, .74, .775, .8, .82],
               [.03, .06, .13, .19, .24, .31, .35, .46, .52, .63, .71, .75, .78, .8]])
_H_J = np.arange(9) / 2
_H_CP = np.arange(13) * 2.5 / 12
_H = np.array([[0, .51, .65, .66, .65, .64, .63, .62, .61], [0, .50, .71, .82, .81, .70, .68, .67, .66], [0, .49, .72, .83, .86, .85, .75, .70, .69],
               [0, .45, .71, .82, .865, .875, .84, .79, .72], [0, .42, .69, .815, .87, .885, .878, .84, .80], [0, .40, .65, .81, .865, .89, .903, .873, .83],
               [0, .38, .61, .78, .85, .88, .91, .90, .86], [0, .34, .58, .73, .83, .876, .904, .91, .88], [0, .31, .53, .71, .81, .87, .895, .91, .882],
               [0, .25, .44, .62, .75, .84, .88, .89, .87], [0, .18, .35, .50, .68, .79, .86, .86, .85], [0, .14, .25, .40, .55, .70, .79, .80, .72],
               [0, .12, .19, .29, .40, .50, .60, .60, .50]])
_ST = np.array([2.5, 3.0, 2.55, 2.0, 1.85, 1.5, 1.25, 1.05, .95, .86, .79, .70, .62, .53, .45, .38, .32, .28, .24, .21, .18, .16, .14, .12, .10])
_STH = np.concatenate([_ST, [.09] + [.08] * 15])
_STH[6:] *= 1.2


def prop_eta(cp, J, blades):
    g = (_R_CP, _R_J, _R) if blades == 3 else (_H_CP, _H_J, _H)
    rows = make_interp_spline(g[1], g[2], k=3, axis=1)
    return np.array([float(make_interp_spline(g[0], rows(j), k=3)(c)) for c, j in zip(np.ravel(cp), np.ravel(J))])


def prop_static(cp, blades):
    x, y = (np.arange(25) * .025, _ST) if blades == 3 else (np.arange(41) * .025, _STH)
    return make_interp_spline(x, y, k=3)(np.ravel(cp))


def ct_of(cp, eta, J, ctcp):
    with np.errstate(all="ignore"):
        dyn = cp * eta / J
    w = np.clip((J - .1) / .1, 0, 1)
    return np.where(w <= 0, ctcp * cp, np.where(w >= 1, dyn, (1 - w) * ctcp * cp + w * np.where(np.isfinite(dyn), dyn, 0)))


def prop_weight(D_m, P_W, blades):
    # Roskam: 0.108 (D[ft] P[hp] sqrt(blades))^0.782 lb
    return 0.108 * (D_m / .3048 * P_W / 745.6998715822702 * blades ** .5) ** .782 * .45359237


def propeller(P_, rho, V, rpm, D, blades):
    n = rpm / 60
    cp, J = P_ / (rho * n ** 3 * D ** 5), V / (n * D)
    ct = ct_of(cp, prop_eta(cp, J, blades), J, prop_static(cp, blades))
    return ct * rho * n ** 2 * D ** 4


RPM = ("rpm", "n", U(900, 2600))
DIA = ("m", None, U(1.6, 4.0))
RHO = ("kg/m**3", "n", U(.3, 1.3))
# static, blend and cruise regimes
VEL = ("m/s", "n", MIX(U(0, 8, edges=(0.0,)), U(5, 20), U(20, 150)))

Spec(PR + "PropCoefficients", "C16", {"shaft_power_in": ("W", "n", U(0, 1e6, edges=(0.0,))), "diameter": DIA, "rpm": RPM, "fltcond|rho": RHO, "fltcond|Utrue": VEL},
     {"cp": None, "J": None, "prop_Vtip": None},
     ref=lambda i, o: {"cp": i["shaft_power_in"] / (i["fltcond|rho"] * (i["rpm"] / 60) ** 3 * i["diameter"] ** 5), "J": i["fltcond|Utrue"] / (i["rpm"] / 60 * i["diameter"]),
                       "prop_Vtip": np.pi * i["diameter"] * i["rpm"] / 60})
Spec(PR + "ThrustCalc", "C16", {"cp": (None, "n", U(0.02, 1.0)), "eta_prop": (None, "n", U(.1, .95)), "J": (None, "n", MIX(U(.001, .0999), U(.1, .2), U(.2, 3))),
                                "fltcond|rho": RHO, "rpm": RPM, "diameter": DIA, "ct_over_cp": (None, "n", U(.05, 3))}, {"thrust": "N"},
     ref=lambda i, o: {"thrust": ct_of(i["cp"], i["eta_prop"], i["J"], i["ct_over_cp"]) * i["fltcond|rho"] * (i["rpm"] / 60) ** 2 * i["diameter"] ** 4})
Spec(PR + "WeightCalc", "C16", {"power_rating": ("W", None, LU(1e4, 5e6)), "diameter": DIA}, {"component_weight": "kg"}, nn=None, opts=lambda r: {"num_blades": int(r.integers(2, 9))},
     ref=lambda i, o: {"component_weight": prop_weight(i["diameter"], i["power_rating"], o["num_blades"])}, rtol=1e-6)


def _capcp(P="shaft_power_in", D="diameter", rpm="rpm", top=.95):
    def f(v, o, r):
        cp = v[P] / (v["fltcond|rho"] * (v[rpm] / 60) ** 3 * v[D] ** 5)
        v[P] = np.where(cp > top, v[P] * r.uniform(.02, top) / np.maximum(cp, 1e-9), v[P])
        return v
    return f


def _inv_prop(rep, i, o, g):
    J = i["fltcond|Utrue"] / (i["rpm"] / 60 * i["diameter"])
    m = (J >= .2) & (J <= (2.8 if o.get("num_blades", 4) == 3 else 4.0))
    rep.require("SimplePropeller:free_power", np.all(g["thrust"][m] * i["fltcond|Utrue"][m] <= i["shaft_power_in"][m] * (1 + 1e-9) + 1e-9), inputs=i, outputs=g)


Spec(P + "SimplePropeller", "C16", {"shaft_power_in": ("W", "n", MIX(U(1e4, 1e6), CH(0.0))), "diameter": DIA, "rpm": RPM, "fltcond|rho": RHO, "fltcond|Utrue": VEL, "power_rating": ("W", None, LU(1e4, 3e6))},
     {"thrust": "N", "component_weight": "kg"}, opts=lambda r: {**some(r, .5, design_cp=.3, design_J=1.7), **({"num_blades": int(r.choice([3, 4]))} if r.random() < .8 else {})},
     fixup=lambda v, o, r: _capcp(top=.6 if o.get("num_blades", 4) == 3 else .95)(v, o, r),
     ref=lambda i, o: {"thrust": propeller(i["shaft_power_in"], i["fltcond|rho"], i["fltcond|Utrue"], i["rpm"], i["diameter"], o.get("num_blades", 4)),
                       "component_weight": prop_weight(i["diameter"], i["power_rating"], o.get("num_blades", 4))},
     inv=_inv_prop, rtol=1e-6, atol=1e-9, group=True)


# ------------------------------------------------------------------ splitter
def split(i, o):
    e, P_ = o.get("efficiency", 1.0), i["power_in"]
    a = P_ * i["power_split_fraction"] if o.get("rule", "fraction") == "fraction" else np.minimum(P_, i["power_split_amount"])
    R = i["power_rating"]
    return {"power_out_A": e * a, "power_out_B": e * (P_ - a), "heat_out": P_ - e * P_, "component_cost": R * o.get("cost_inc", 0.) + o.get("cost_base", 0.),
            "component_weight": R * o.get("weight_inc", 0.) + o.get("weight_base", 0.), "component_sizing_margin": P_ / R}


def _inv_split(rep, i, o, g):
    rep.close("PowerSplit:balance", g["power_out_A"] + g["power_out_B"] + g["heat_out"], i["power_in"], rtol=1e-12, atol=1e-8)
    rep.require("PowerSplit:over_delivery", np.all(g["power_out_A"] <= i["power_in"] + 1e-8) and np.all(g["power_out_B"] >= -1e-8), inputs=i)


Spec(P + "PowerSplit", "C17", lambda o: {"power_in": ("W", "n", U(0, 1e6, edges=(0.0, 5e5))), "power_rating": ("W", None, LU(1e4, 1e7)),
                                         **({"power_split_amount": ("W", "n", U(0, 1e6, edges=(0.0, 5e5)))} if o.get("rule") == "fixed" else {"power_split_fraction": (None, "n", U(0, 1, edges=(0., 1.)))})},
     {"power_out_A": "W", "power_out_B": "W", "heat_out": "W", "component_cost": "USD", "component_weight": "kg", "component_sizing_margin": None},
     opts=lambda r: {**some(r, .7, efficiency=fl(.5, 1), **LINOPT), **({} if r.random() < .3 else {"rule": str(r.choice(["fraction", "fixed"]))})}, ref=split, inv=_inv_split, D={"power_rating": 99999999., "power_split_fraction": .5}, atol=1e-8)

# ------------------------------------------------------------------ battery
Spec(E + "SimpleBattery", "C18", lambda o: {"battery_weight": ("kg", None, LU(5, 2e4)), "elec_load": ("W", "n", U(-1e5, 1e6, edges=(0.0,))), "specific_energy": ("W*h/kg", None, U(50, 1000))},
     {"heat_out": "W", "component_cost": "USD", "component_sizing_margin": None, "max_energy": "W*h"},
     opts=lambda r: some(r, .7, efficiency=fl(.5, 1), specific_power=fl(500, 1e4), specific_energy=fl(50, 900), cost_inc=fl(1, 100), cost_base=fl(0, 100)), atol=1e-9, D=lambda o: {"specific_energy": o.get("specific_energy", 300.)},
     ref=lambda i, o: {"heat_out": i["elec_load"] * (1 - o.get("efficiency", 1.0)), "component_cost": i["battery_weight"] * o.get("cost_inc", 50.) + o.get("cost_base", 1.),
                       "component_sizing_margin": i["elec_load"] / (i["battery_weight"] * o.get("specific_power", 5000.)), "max_energy": i["battery_weight"] * i["specific_energy"]})


def simpson_cum(y, h):
    """Cumulative integral with the documented parabolic 3-point stencil: the two halves of every panel pair."""
    out = np.zeros_like(y)
    for k in range(0, y.size - 2, 2):
        a, b, c = y[k:k + 3]
        out[k + 1] = out[k] + h * (5 * a + 8 * b - c) / 12
        out[k + 2] = out[k] + h * (a + 4 * b + c) / 3
    return out


def cumint(y, T):
    y = np.ravel(y)
    return simpson_cum(y, T / (y.size - 1)) if y.size > 1 else np.zeros(1)


def _soc(i, o):
    b = dict(heat_out=i["elec_load"] * (1 - o.get("efficiency", 1.0)), component_sizing_margin=i["elec_load"] / (i["battery_weight"] * o.get("specific_power", 5000.)),
             component_cost=i["battery_weight"] * o.get("cost_inc", 50.) + o.get("cost_base", 1.))
    cap = i["battery_weight"] * 3600 * i["specific_energy"]
    soc = i["SOC_initial"] - cumint(i["elec_load"], i["duration"]) / cap
    return {**b, "SOC": soc, "SOC_final": soc[-1:], "max_energy": cap / 3600}


Spec(E + "SOCBattery", "C18", {"battery_weight": ("kg", None, LU(50, 5e3)), "elec_load": ("W", "n", U(-1e4, 3e5, edges=(0.0,))), "specific_energy": ("W*h/kg", None, U(50, 1000)),
                               "SOC_initial": (None, None, U(.2, 1, edges=(1.0,))), "duration": ("s", None, U(1, 8000))},
     {"heat_out": "W", "component_cost": "USD", "component_sizing_margin": None, "max_energy": "W*h", "SOC": None, "SOC_final": None},
     opts=lambda r: some(r, .7, efficiency=fl(.5, 1), specific_power=fl(500, 1e4), specific_energy=fl(50, 900), cost_inc=fl(1, 100), cost_base=fl(0, 100)),
     D=lambda o: {"specific_energy": o.get("specific_energy", 300.), "SOC_initial": 1.0}, nnc=ODD, ref=_soc, pointwise=False, group=True, atol=1e-9, name="SOCBattery")

# ------------------------------------------------------------------ assembled systems
FC = {"fltcond|rho": RHO, "fltcond|Utrue": VEL}
ENGR, DIA1 = ("W", None, LU(2e5, 1.2e6)), ("m", None, U(2.2, 3.2))
HYB = dict(FC, throttle=(None, "n", U(.02, 1.0)))


def _one(i, o):
    R, D = i["ac|propulsion|engine|rating"], i["ac|propulsion|propeller|diameter"]
    P_ = R * i["throttle"]
    return {"thrust": propeller(P_, i["fltcond|rho"], i["fltcond|Utrue"], i["prop1.rpm"], D, 4), "fuel_flow": P_ * .6 * 1.68965774e-7,
            "eng1.component_weight": R * .14e-3 + 104, "prop1.component_weight": prop_weight(D, R, 4)}


# power such that the propeller maps stay inside their tabulated range
def _cap(R="ac|propulsion|engine|rating", rpm=("prop1.rpm",), D="ac|propulsion|propeller|diameter"):
    def f(v, o, r):
        cp = max(float(np.max(v[R] / (v["fltcond|rho"] * (v[k] / 60) ** 3 * v[D] ** 5))) for k in rpm)
        if cp > .9:
            v[R] = v[R] * .9 / cp
        return v
    return f


Spec(S + "TurbopropPropulsionSystem", "C17", dict(FC, **{"throttle": (None, "n", U(0, 1, edges=(0., 1.))), "ac|propulsion|engine|rating": ENGR, "ac|propulsion|propeller|diameter": DIA1, "prop1.rpm": ("rpm", "n", U(1400, 2400))}),
     {"thrust": "N", "fuel_flow": "kg/s", "eng1.component_weight": "kg", "prop1.component_weight": "kg"}, ref=_one, rtol=1e-6, atol=1e-9, group=True, fixup=_cap())


def _two(i, o):
    R, D = i["ac|propulsion|engine|rating"], i["ac|propulsion|propeller|diameter"]
    P1, P2 = R * i["throttle"], R * i["throttle"] * i["propulsor_active"]
    f = .6 * 1.68965774e-7
    return {"thrust": sum(propeller(p, i["fltcond|rho"], i["fltcond|Utrue"], i["prop%d.rpm" % k], D, 4) for k, p in ((1, P1), (2, P2))), "fuel_flow": (P1 + P2) * f,
            "engines_weight": 2 * (R * .14e-3 + 104), "propellers_weight": 2 * prop_weight(D, R, 4)}


Spec(S + "TwinTurbopropPropulsionSystem", "C17", dict(FC, **{"throttle": (None, "n", U(0, 1, edges=(0., 1.))), "propulsor_active": (None, "n", CH(0, 1, 1)), "ac|propulsion|engine|rating": ENGR, "ac|propulsion|propeller|diameter": DIA1,
     "prop1.rpm": ("rpm", "n", U(1400, 2400)), "prop2.rpm": ("rpm", "n", U(1400, 2400))}),
     {"thrust": "N", "fuel_flow": "kg/s", "engines_weight": "kg", "propellers_weight": "kg"}, ref=_two, rtol=1e-6, atol=1e-9, group=True, fixup=_cap(rpm=("prop1.rpm", "prop2.rpm")))


def _twinhyb(i, o):
    M, D, th = i["ac|propulsion|motor|rating"], i["ac|propulsion|propeller|diameter"], i["throttle"]
    loads = (M * th, M * th * i["propulsor_active"])
    tot = loads[0] + loads[1]
    batt = tot * i["hybrid_split.power_split_fraction"]
    gen = tot - batt
    soc = i["batt1.SOC_initial"] - cumint(batt, i["duration"]) / (i["ac|weights|W_battery"] * i["ac|propulsion|battery|specific_energy"] * 3600)
    return {"thrust": sum(propeller(.97 * p, i["fltcond|rho"], i["fltcond|Utrue"], i["prop%d.rpm" % (k + 1)], D, 4) for k, p in enumerate(loads)),
            "fuel_flow": gen / .97 * .6 * 1.68965774e-7, "battery_load": batt, "motors_weight": 2 * M / 5000, "propellers_weight": 2 * prop_weight(D, M, 4), "batt1.SOC": soc,
            "batt1.heat_out": .03 * batt, "gen1.elec_power_out": gen, "eng1.component_sizing_margin": gen / .97 / i["ac|propulsion|engine|rating"],
            "gen1.component_sizing_margin": gen / i["ac|propulsion|generator|rating"], "motor2.component_sizing_margin": th * i["propulsor_active"]}


Spec(S + "TwinSeriesHybridElectricPropulsionSystem", "C17", dict(HYB, **{"propulsor_active": (None, "n", CH(0, 1, 1)), "ac|propulsion|engine|rating": ENGR, "ac|propulsion|propeller|diameter": DIA1,
     "ac|propulsion|motor|rating": ENGR, "ac|propulsion|generator|rating": ENGR, "ac|weights|W_battery": ("kg", None, U(200, 2000)), "ac|propulsion|battery|specific_energy": ("W*h/kg", None, U(200, 900)),
     "hybrid_split.power_split_fraction": (None, "n", U(0, 1, edges=(0., 1.))), "duration": ("s", None, U(100, 4000)), "batt1.SOC_initial": (None, None, U(.3, 1)), "prop1.rpm": ("rpm", "n", U(1400, 2400)), "prop2.rpm": ("rpm", "n", U(1400, 2400))}),
     {"thrust": "N", "fuel_flow": "kg/s", "battery_load": "W", "motors_weight": "kg", "propellers_weight": "kg", "batt1.SOC": None, "batt1.heat_out": "W", "gen1.elec_power_out": "W",
      "eng1.component_sizing_margin": None, "gen1.component_sizing_margin": None, "motor2.component_sizing_margin": None},
     nnc=ODD, ref=_twinhyb, rtol=2e-6, atol={"fuel_flow": 1e-9, "gen1.elec_power_out": 1e-2, "thrust": 1e-6, "battery_load": 1e-6, "batt1.heat_out": 1e-6, "eng1.component_sizing_margin": 1e-7, "gen1.component_sizing_margin": 1e-7},
     pointwise=False, solver=newton(), group=True, weight=.3, fixup=_cap(R="ac|propulsion|motor|rating", rpm=("prop1.rpm", "prop2.rpm")))


def _onehyb(i, o):
    M, D, th = i["ac|propulsion|motor|rating"], i["ac|propulsion|propeller|diameter"], i["motor1.throttle"]
    tot = M * th
    batt = tot * i["hybrid_split.power_split_fraction"]
    P_ = i["ac|propulsion|engine|rating"] * i["eng1.throttle"]
    return {"thrust": propeller(.97 * tot, i["fltcond|rho"], i["fltcond|Utrue"], i["prop1.rpm"], D, 4), "fuel_flow": P_ * .6 * 1.68965774e-7,
            "batt1.component_sizing_margin": batt / 5000 / i["ac|weights|W_battery"], "eng_gen_resid.eng_gen_residual": .97 * P_ - (tot - batt),
            "motors_weight": M / 5000, "propellers_weight": prop_weight(D, M, 4), "batt1.max_energy": i["ac|weights|W_battery"] * o.get("specific_energy", 300)}


Spec(S + "SingleSeriesHybridElectricPropulsionSystem", "C17", dict(FC, **{"motor1.throttle": (None, "n", U(0, 1)), "eng1.throttle": (None, "n", U(0, 1)), "ac|propulsion|engine|rating": ENGR, "ac|propulsion|propeller|diameter": DIA1,
     "ac|propulsion|motor|rating": ENGR, "ac|propulsion|generator|rating": ENGR, "ac|weights|W_battery": ("kg", None, U(200, 2000)),
     "hybrid_split.power_split_fraction": (None, "n", U(0, 1, edges=(0., 1.))), "prop1.rpm": ("rpm", "n", U(1400, 2400))}),
     {"thrust": "N", "fuel_flow": "kg/s", "batt1.component_sizing_margin": None, "eng_gen_resid.eng_gen_residual": "W", "motors_weight": "kg", "propellers_weight": "kg", "batt1.max_energy": "W*h"},
     opts=lambda r: some(r, .7, specific_energy=fl(200, 700)), ref=_onehyb, rtol=1e-6, atol=1e-4, group=True, fixup=_cap(R="ac|propulsion|motor|rating"))


def _barehyb(i, o):
    M, D, th = i["dv_motor1_rating"], i["dv_prop1_diameter"], i["throttle"]
    tot = M * th
    batt = tot * i["hybrid_split.power_split_fraction"]
    P_ = i["ac|propulsion|engine|rating"] * i["eng1.throttle"]
    return {"thrust": propeller(.97 * tot, i["fltcond|rho"], i["fltcond|Utrue"], i["prop1.rpm"], D, 4), "fuel_flow": P_ * .6 * 1.68965774e-7,
            "batt1.component_sizing_margin": batt / 5000 / i["dv_batt1_weight"], "gen1.elec_power_out": .97 * P_, "hybrid_split.power_out_B": tot - batt,
            "gen1.component_sizing_margin": .97 * P_ / i["dv_gen1_rating"], "motor1.component_sizing_margin": th, "prop1.component_weight": prop_weight(D, M, 4)}


Spec(S + "SeriesHybridElectricPropulsionSystem", "C17", dict(FC, **{"throttle": (None, "n", U(0, 1)), "eng1.throttle": (None, "n", U(0, 1)), "ac|propulsion|engine|rating": ENGR, "dv_prop1_diameter": DIA1,
     "dv_motor1_rating": ENGR, "dv_gen1_rating": ENGR, "dv_batt1_weight": ("kg", None, U(200, 2000)),
     "hybrid_split.power_split_fraction": (None, "n", U(0, 1, edges=(0., 1.))), "prop1.rpm": ("rpm", "n", U(1400, 2400))}),
     {"thrust": "N", "fuel_flow": "kg/s", "batt1.component_sizing_margin": None, "gen1.elec_power_out": "W", "hybrid_split.power_out_B": "W", "gen1.component_sizing_margin": None,
      "motor1.component_sizing_margin": None, "prop1.component_weight": "kg"},
     ref=_barehyb, rtol=1e-6, atol=1e-4, group=True, fixup=_cap(R="dv_motor1_rating", D="dv_prop1_diameter"))
