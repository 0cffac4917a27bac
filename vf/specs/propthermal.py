"""Propulsion systems with a thermal management loop, judged from traces: every relation is re-evaluated by the
reference components on the values observed at the neighbouring stations of the converged loop."""
import numpy as np
from ..spec import Spec, U, LU, MIX, CH, newton
from .aero import fl, some
from .prop import propeller, prop_weight, cumint, ODD, FC, HYB, ENGR, DIA1, _cap
from .thermal import hx, HXD, HXN, duct_inc, lcc, lin_ode, _impl, DD, IN2, cop, CP

S = "openconcept.propulsion.systems:"
PL = {"channel_width": ("mm", None, U(.8, 1.6)), "channel_height": ("mm", None, U(10, 30)), "channel_length": ("m", None, U(.1, .4)), "n_parallel": (None, None, U(30, 90))}
RPMS = ("rpm", "n", U(1400, 2400))
RHOC = ("kg/m**3", "n", MIX(U(800, 1200), CH(997.0)))
COLD = ("K", "n", U(240, 300))
T0 = ("K", None, U(285, 320))
HXM = ("m", None, U(.5, .6))


def arr(n, x):
    return np.broadcast_to(np.asarray(x, float), (n,)).copy()


def sink(rep, tag, g, k, q_in, mass, pl, i):
    n = g[k + ".T"].size
    w = lcc({"q_in": q_in, "T_in": g[k + ".T_in"], "mdot_coolant": arr(n, pl["mdot"]), "mass": np.ravel(mass), "T_initial": i[k + ".T_initial"], "duration": i["duration"],
             **{c: pl[c] for c in ("channel_width", "channel_height", "channel_length", "n_parallel")}}, {})
    for o in ("T", "T_out"):
        rep.close("%s:%s.%s" % (tag, k, o), g[k + "." + o], w[o], rtol=2e-6, inputs=i)


def same(rep, key, a, b, **d):
    rep.close(key, a, b, rtol=1e-7, **d)


def exchanger(rep, tag, i, g, T_air, rho_air, mdot_hot, extra=()):
    n = g["hx.T_out_hot"].size
    w = hx({**HXD, **{k: i[k] for k in HXN if k in i}, "mdot_cold": g["duct.mdot"], "rho_cold": rho_air, "T_in_cold": T_air, "mdot_hot": arr(n, mdot_hot), "rho_hot": arr(n, i["@rho_coolant"]), "T_in_hot": g["hx.T_in_hot"]}, {})
    for a, b in (("hx.heat_transfer", "heat_transfer"), ("hx.T_out_hot", "T_out_hot"), ("hx.delta_p_cold", "delta_p_cold"), ("hx.delta_p_hot", "delta_p_hot"), ("hx.component_weight", "component_weight")):
        rep.close("%s:%s" % (tag, a), g[a], w[b], rtol=2e-6, atol=1e-4 if a == "hx.heat_transfer" else 1e-6, inputs=i)
    rep.close(tag + ":coolant_balance", arr(n, mdot_hot) * HXD["cp_hot"] * (g["hx.T_in_hot"] - g["hx.T_out_hot"]), g["hx.heat_transfer"], rtol=1e-6, atol=1e-3, inputs=i)


def airduct(rep, tag, i, g, A):
    w = duct_inc({"fltcond|rho": i["fltcond|rho"], "fltcond|Utrue": i["fltcond|Utrue"], "area_nozzle": A, "delta_p_hex": g["hx.delta_p_cold"]}, {})
    rep.close(tag + ":duct.mdot", g["duct.mdot"], w["mdot"], rtol=2e-6, inputs=i)
    rep.close(tag + ":duct.drag", g["duct.drag"], w["drag"], rtol=2e-6, atol=1e-5, scale=w["drag"], inputs=i)


def tank(rep, tag, i, g, mass, mdot, T_in):
    n = g["reservoir.T_out"].size
    same(rep, tag + ":reservoir.T_in", g["reservoir.T_in"], T_in, inputs=i)
    k = arr(n, mdot) / mass
    rep.close(tag + ":reservoir.T_out", g["reservoir.T_out"], lin_ode(i["reservoir.T_initial"][0], k * g["reservoir.T_in"], k, i["duration"][0]), rtol=2e-6, inputs=i)


# ------------------------------------------------------------------ single all-electric
def _ae(i, o):
    M, D = i["ac|propulsion|motor|rating"], i["ac|propulsion|propeller|diameter"]
    load = M * i["throttle"]
    return {"thrust": propeller(.97 * load, i["fltcond|rho"], i["fltcond|Utrue"], i["prop1.rpm"], D, 4), "motor1.elec_load": load, "motor1.heat_out": .03 * load, "motor1.component_weight": M / 5000,
            "prop1.component_weight": prop_weight(D, M, 4), "batt1.SOC": i["batt1.SOC_initial"] - cumint(load, i["duration"]) / (i["ac|weights|W_battery"] * o.get("specific_energy", 300) * 3600), "batt1.heat_out": .03 * load}


AEI = {**FC, "fltcond|Utrue": ("m/s", "n", U(30, 130)), "throttle": (None, "n", U(.05, 1)), "ac|propulsion|motor|rating": ENGR, "ac|propulsion|propeller|diameter": DIA1, "ac|weights|W_battery": ("kg", None, U(200, 2000)), "duration": ("s", None, U(100, 4000)),
       "batt1.SOC_initial": (None, None, U(.3, 1)), "prop1.rpm": RPMS, "fltcond|T": COLD, "motorheatsink.T_initial": T0, "reservoir.T_initial": T0, "@mdot_coolant": ("kg/s", "n", U(.08, .4)), "@coolant_mass": ("kg", None, U(5, 20)),
       **{"@" + k: v for k, v in PL.items()}, "@rho_coolant": RHOC}
AEO = {"thrust": "N", "motor1.elec_load": "W", "motor1.heat_out": "W", "motor1.component_weight": "kg", "prop1.component_weight": "kg", "batt1.SOC": None, "batt1.heat_out": "W", "motorheatsink.T": "K", "motorheatsink.T_out": "K", "motorheatsink.T_in": "K",
       "reservoir.T_in": "K", "reservoir.T_out": "K", "duct.mdot": "kg/s"}
AED = {"@mdot_coolant": .1, "@coolant_mass": 10., "@rho_coolant": 997., "@channel_width": 1., "@channel_height": 20., "@channel_length": .2, "@n_parallel": 50.}


def _inv_ae(comp):
    def f(rep, i, o, g):
        tag = "AllElectricThermal"
        pl = {"mdot": i["@mdot_coolant"], **{k: i["@" + k] for k in PL}}
        M = i["ac|propulsion|motor|rating"]
        sink(rep, tag, g, "motorheatsink", g["motor1.heat_out"], M / 5000, pl, i)
        same(rep, tag + ":loop", g["motorheatsink.T_in"], g["reservoir.T_out"], inputs=i)
        if comp:
            n = g["duct.mdot"].size
            w = _impl({**{k: arr(n, v) for k, v in DD.items() if k != "@convergence_hack"}, "@area_nozzle": arr(n, 58.), "@convergence_hack": arr(1, -20.), "@cp": arr(1, CP), "p_inf": i["fltcond|p"], "T_inf": i["fltcond|T"], "Utrue": i["fltcond|Utrue"],
                       "mdot_hot": arr(n, pl["mdot"]), "rho_hot": arr(n, i["@rho_coolant"]), "T_in_hot": g["duct.T_in_hot"]}, {})
            same(rep, tag + ":duct.T_in_hot", g["duct.T_in_hot"], g["motorheatsink.T_out"], inputs=i)
            if w:
                for k in ("mdot", "force.F_net", "T_out_hot"):
                    rep.close("%s:duct.%s" % (tag, k), g["duct." + k], w[k], rtol=2e-6, atol=1e-4 if k == "force.F_net" else 1e-6, inputs=i)
                rep.event("compressible_duct_references")
            tank(rep, tag, i, g, i["@coolant_mass"], pl["mdot"], g["duct.T_out_hot"])
        else:
            same(rep, tag + ":hx.T_in_hot", g["hx.T_in_hot"], g["motorheatsink.T_out"], inputs=i)
            exchanger(rep, tag, i, g, i["fltcond|T"], i["fltcond|rho"], pl["mdot"])
            airduct(rep, tag, i, g, i["@area_nozzle"] * IN2)
            tank(rep, tag, i, g, i["@coolant_mass"], pl["mdot"], g["hx.T_out_hot"])
    return f


HXT = {"hx.delta_p_hot": "Pa", "hx.component_weight": "kg", "hx.T_in_hot": "K", "hx.T_out_hot": "K", "hx.heat_transfer": "W", "hx.delta_p_cold": "Pa", "duct.drag": "N"}
common = dict(nnc=(3, 5, 11), rtol=1e-6, pointwise=False, solver=newton(maxiter=60), group=True, opts=lambda r: some(r, .6, specific_energy=fl(200, 700)))
TOL = {"thrust": 1e-6}
Spec(S + "AllElectricSinglePropulsionSystemWithThermal_Incompressible", "C17", {**AEI, "@area_nozzle": ("inch**2", "n", U(40, 90))}, {**AEO, **HXT}, ref=_ae, inv=_inv_ae(False), fixup=_cap(R="ac|propulsion|motor|rating"), D={**AED, "@area_nozzle": 58.}, weight=.3, atol=TOL, **common)
Spec(S + "AllElectricSinglePropulsionSystemWithThermal_Compressible", "C17", {**AEI, "fltcond|p": ("Pa", "n", U(5e4, 1e5))}, {**AEO, "duct.T_in_hot": "K", "duct.T_out_hot": "K", "duct.force.F_net": "N"}, ref=_ae, inv=_inv_ae(True), fixup=_cap(R="ac|propulsion|motor|rating"),
     D=AED, weight=.15, atol=TOL, **common)


# ------------------------------------------------------------------ twin series hybrid
def _tw(refrig):
    def f(i, o):
        M, D, th, n = i["ac|propulsion|motor|rating"], i["ac|propulsion|propeller|diameter"], i["throttle"], i["throttle"].size
        loads = (M * th, M * th * i["propulsor_active"])
        tot = loads[0] + loads[1]
        if refrig:
            b = np.linspace(i["@refrig.control.bypass_start"][0], i["@refrig.control.bypass_end"][0], n)
            el = (1 - b) * i["ac|propulsion|thermal|refrig|rating"] / .95
            tot = tot + el
        batt = tot * i["hybrid_split.power_split_fraction"]
        gen = tot - batt
        out = {"thrust": sum(propeller(.97 * p, i["fltcond|rho"], i["fltcond|Utrue"], i["prop%d.rpm" % (k + 1)], D, 4) for k, p in enumerate(loads)), "fuel_flow": gen / .97 * .6 * 1.68965774e-7, "battery_load": batt,
               "motors_weight": 2 * M / 5000, "propellers_weight": 2 * prop_weight(D, M, 4), "motors_heat": .03 * (loads[0] + loads[1]), "batt1.heat_out": .03 * batt, "gen1.elec_power_out": gen,
               "batt1.SOC": i["batt1.SOC_initial"] - cumint(batt, i["duration"]) / (i["ac|weights|W_battery"] * i["ac|propulsion|battery|specific_energy"] * 3600)}
        if refrig:
            out["refrig.elec_load"] = el
            out["refrig.component_weight"] = i["ac|propulsion|thermal|refrig|rating"] / i["ac|propulsion|thermal|refrig|specific_power"]
        return out
    return f


TH = "ac|propulsion|thermal|hx|"
TWI = {**HYB, "fltcond|Utrue": ("m/s", "n", U(30, 130)), "propulsor_active": (None, "n", CH(0, 1, 1)), "ac|propulsion|engine|rating": ENGR, "ac|propulsion|propeller|diameter": DIA1, "ac|propulsion|motor|rating": ENGR, "ac|propulsion|generator|rating": ENGR,
       "ac|weights|W_battery": ("kg", None, U(200, 2000)), "ac|propulsion|battery|specific_energy": ("W*h/kg", None, U(200, 900)), "hybrid_split.power_split_fraction": (None, "n", U(0, 1, edges=(0., 1.))), "duration": ("s", None, U(100, 4000)),
       "batt1.SOC_initial": (None, None, U(.3, 1)), "prop1.rpm": RPMS, "prop2.rpm": RPMS, "fltcond|T": COLD, TH + "mdot_coolant": ("kg/s", "n", U(.1, .5)), TH + "coolant_mass": ("kg", None, U(5, 20)),
       **{TH + k: v for k, v in PL.items()}, "@rho_coolant": RHOC, "batteryheatsink.T_initial": T0, "motorheatsink.T_initial": T0, **{k: v for k, v in HXN.items() if "n_wide" in k}}
TWO = {"thrust": "N", "fuel_flow": "kg/s", "battery_load": "W", "motors_weight": "kg", "propellers_weight": "kg", "motors_heat": "W", "batt1.heat_out": "W", "gen1.elec_power_out": "W", "batt1.SOC": None,
       **{"%s.%s" % (a, b): "K" for a in ("batteryheatsink", "motorheatsink") for b in ("T", "T_in", "T_out")}, "duct.mdot": "kg/s", **HXT}
TWT = {"fuel_flow": 1e-9, "gen1.elec_power_out": 1e-2, "thrust": 1e-6, "battery_load": 1e-6, "batt1.heat_out": 1e-6, "refrig.elec_load": 1e-6}


def _inv_tw(refrig):
    def f(rep, i, o, g):
        tag = "TwinHybridThermal" + ("Refrigerated" if refrig else "")
        pl = {"mdot": i[TH + "mdot_coolant"], **{k: i[TH + k] for k in PL}}
        sink(rep, tag, g, "batteryheatsink", g["batt1.heat_out"], i["ac|weights|W_battery"], pl, i)
        sink(rep, tag, g, "motorheatsink", g["motors_heat"], 2 * i["ac|propulsion|motor|rating"] / 5000, pl, i)
        same(rep, tag + ":battery_to_motor", g["motorheatsink.T_in"], g["batteryheatsink.T_out"], inputs=i)
        n = g["duct.mdot"].size
        exchanger(rep, tag, i, g, i["fltcond|T"], i["fltcond|rho"], pl["mdot"])
        airduct(rep, tag, i, g, (i["ac|propulsion|thermal|duct|area_nozzle"] if refrig else i["@ac|propulsion|thermal|duct|area_nozzle"]) * IN2)
        if not refrig:
            same(rep, tag + ":hx.T_in_hot", g["hx.T_in_hot"], g["motorheatsink.T_out"], inputs=i)
            tank(rep, tag, i, g, i[TH + "coolant_mass"], pl["mdot"], g["hx.T_out_hot"])
            same(rep, tag + ":reservoir_to_battery", g["batteryheatsink.T_in"], g["reservoir.T_out"], inputs=i)
            return
        same(rep, tag + ":refrig.T_in_cold", g["refrig.T_in_cold"], g["motorheatsink.T_out"], inputs=i)
        same(rep, tag + ":refrig.T_in_hot", g["refrig.T_in_hot"], g["hx.T_out_hot"], inputs=i)
        same(rep, tag + ":refrig.T_out_cold", g["refrig.T_out_cold"], g["batteryheatsink.T_in"], inputs=i)
        same(rep, tag + ":refrig.T_out_hot", g["refrig.T_out_hot"], g["hx.T_in_hot"], inputs=i)
        # the coolant leaves the refrigerator as the bypass mixes it with the refrigerated streams
        b = np.linspace(i["@refrig.control.bypass_start"][0], i["@refrig.control.bypass_end"][0], n)
        Pw, C = i["ac|propulsion|thermal|refrig|rating"], pl["mdot"] * 3801.
        K = g["refrig.COP"]
        tc, th = g["refrig.T_in_cold"] - K * Pw / C, g["refrig.T_in_hot"] + (K + 1) * Pw / C
        rep.close(tag + ":COP", K, cop(tc, th, i["ac|propulsion|thermal|refrig|eff"]), rtol=1e-5, atol=1e-6, inputs=i)
        rep.close(tag + ":cold_stream", g["refrig.T_out_cold"], b * g["refrig.T_in_hot"] + (1 - b) * tc, rtol=1e-6, inputs=i)
        rep.close(tag + ":hot_stream", g["refrig.T_out_hot"], b * g["refrig.T_in_cold"] + (1 - b) * th, rtol=1e-6, inputs=i)
    return f


twc = dict(nnc=(3, 5, 11), rtol=2e-6, pointwise=False, solver=newton(maxiter=60), group=True, atol=TWT, fixup=_cap(R="ac|propulsion|motor|rating", rpm=("prop1.rpm", "prop2.rpm")))
Spec(S + "TwinSeriesHybridElectricThermalPropulsionSystem", "C17", {**TWI, "@ac|propulsion|thermal|duct|area_nozzle": ("inch**2", "n", U(40, 90)), "reservoir.T_initial": T0}, {**TWO, "reservoir.T_in": "K", "reservoir.T_out": "K"}, ref=_tw(False), inv=_inv_tw(False), weight=.2, **twc)
RF = "ac|propulsion|thermal|refrig|"
Spec(S + "TwinSeriesHybridElectricThermalPropulsionRefrigerated", "C17", {**TWI, "ac|propulsion|thermal|duct|area_nozzle": ("inch**2", "n", U(40, 90)), RF + "rating": ("kW", None, U(.3, 3)), RF + "specific_power": ("W/kg", None, U(100, 400)), RF + "eff": (None, None, U(.25, .5)),
     "@refrig.control.bypass_start": (None, None, U(0, .9)), "@refrig.control.bypass_end": (None, None, U(0, .9))},
     {**TWO, "refrig.elec_load": "W", "refrig.component_weight": "kg", "refrig.T_in_cold": "K", "refrig.T_in_hot": "K", "refrig.T_out_cold": "K", "refrig.T_out_hot": "K", "refrig.COP": None},
     ref=lambda i, o: _tw(True)({**i, RF + "rating": i[RF + "rating"] * 1e3}, o), inv=lambda rep, i, o, g: _inv_tw(True)(rep, {**i, RF + "rating": i[RF + "rating"] * 1e3}, o, g), weight=.2,
     **{**twc, "solver": newton(maxiter=60)}, init={"refrig.hot_side.T_out": (320., "K"), "refrig.cold_side.T_out": (290., "K"), "refrig.T_out_hot": (320., "K"), "refrig.T_out_cold": (290., "K"), "refrig.COP": (5., None), "refrig.q_in_1": (-3e3, "W"), "refrig.q_in_2": (3e3, "W"),
           "motorheatsink.T_out": (300., "K"), "batteryheatsink.T_out": (295., "K"), "hx.T_out_hot": (310., "K"), "refrig.copmatch.COP": (5., None), "duct.mdot": (2., "kg/s")})
