"""Empty-weight build-ups, operating cost, planform geometry, tail sizing and the hydrogen tank, re-derived from the
documented regressions (Raymer, Roskam/Torenbeek, Bradley), exact planform integrals and thin-wall/buckling relations."""
import numpy as np
from ..spec import Spec, U, LU, MIX, CH, newton
from .aero import some, fl

pi = np.pi
LB = 0.45359237  # kg
W = "openconcept.weights.weights_%s:"
sc = None

# input entries shared by the groups (documented units)
IN = {
    "ac|weights|MTOW": ("lb", sc, LU(2e3, 9e5)), "ac|weights|MLW": ("lb", sc, LU(2e3, 8e5)), "ac|weights|W_fuel_max": ("lb", sc, LU(100, 3e5)),
    "ac|geom|wing|S_ref": ("ft**2", sc, LU(80, 6000)), "ac|geom|wing|AR": (None, sc, U(5, 16)), "ac|geom|wing|c4sweep": ("rad", sc, U(0, .7, edges=(0.0,))),
    "ac|geom|wing|taper": (None, sc, U(.1, 1.0)), "ac|geom|wing|toverc": (None, sc, U(.08, .2)), "ac|q_cruise": ("lb*ft**-2", sc, U(20, 300)),
    "ac|geom|hstab|S_ref": ("ft**2", sc, LU(20, 900)), "ac|geom|vstab|S_ref": ("ft**2", sc, LU(15, 700)), "ac|geom|hstab|AR": (None, sc, U(3, 8)),
    "ac|geom|vstab|AR": (None, sc, U(.8, 3)), "ac|geom|hstab|c4sweep": ("rad", sc, U(0, .7)), "ac|geom|vstab|c4sweep": ("rad", sc, U(0, .8)),
    "ac|geom|hstab|c4_to_wing_c4": ("ft", sc, LU(12, 120)), "ac|geom|vstab|c4_to_wing_c4": ("ft", sc, LU(12, 120)), "ac|geom|vstab|toverc": (None, sc, U(.08, .16)),
    "ac|geom|fuselage|length": ("ft", sc, LU(20, 240)), "ac|geom|fuselage|height": ("ft", sc, U(4, 20)), "ac|geom|fuselage|width": ("ft", sc, U(4, 20)),
    "ac|geom|fuselage|S_wet": ("ft**2", sc, LU(200, 12000)), "ac|num_passengers_max": (None, sc, U(2, 400)), "ac|num_flight_deck_crew": (None, sc, CH(1, 2, 3)),
    "ac|num_cabin_crew": (None, sc, CH(0, 1, 4, 12)), "ac|cabin_pressure": ("psi", sc, U(4, 14)), "ac|aero|Mach_max": (None, sc, U(.5, .95)),
    "ac|aero|Vstall_land": ("kn", sc, U(60, 150)), "ac|propulsion|num_engines": (None, sc, CH(1, 2, 3, 4)), "ac|geom|maingear|num_wheels": (None, sc, CH(2, 4, 8, 16)),
    "ac|geom|maingear|num_shock_struts": (None, sc, CH(2, 3, 4)), "ac|geom|nosegear|num_wheels": (None, sc, CH(1, 2)),
}


def inp(*names, **more):
    d = {k: IN[k] for k in names}
    d.update(more)
    return d


# ------------------------------------------------------------------ small turboprops (weights in lb)
NU = 3.8 * 1.5
WAV = 2.117 * 110 ** .933


def tp_wing(i, n=NU):
    c = np.cos(i["ac|geom|wing|c4sweep"])
    return .036 * i["ac|geom|wing|S_ref"] ** .758 * i["ac|weights|W_fuel_max"] ** .0035 * (i["ac|geom|wing|AR"] / c ** 2) ** .6 * i["ac|q_cruise"] ** .006 * i["ac|geom|wing|taper"] ** .04 \
        * (100 * i["ac|geom|wing|toverc"] / c) ** -.3 * (n * i["ac|weights|MTOW"]) ** .49


def tp_emp(i, n=NU):
    return .04 * (n * (i["ac|geom|hstab|S_ref"] + i["ac|geom|vstab|S_ref"]) ** 2) ** .75


def tp_fus(i, n=NU):
    L, h, w = i["ac|geom|fuselage|length"], i["ac|geom|fuselage|height"], i["ac|geom|fuselage|width"]
    press = 11.9 * (pi * (h + w) / 2 * L * .8 * 8) ** .271  # 80% of the shell, 8 psi
    return .052 * i["ac|geom|fuselage|S_wet"] ** 1.086 * (n * i["ac|weights|MTOW"]) ** .177 * i["ac|geom|hstab|c4_to_wing_c4"] ** -.051 * (L / h) ** -.072 * i["ac|q_cruise"] ** .241 + press


def tp_gear(i, n=NU):
    m = n * i["ac|weights|MLW"]
    return .095 * m ** .768 * (i["ac|geom|maingear|length"] / 12) ** .409 + .125 * m ** .566 * (i["ac|geom|nosegear|length"] / 12) ** .845


def tp_fs(i, k=6.55):
    return 2.49 * (i["ac|weights|W_fuel_max"] / k) ** .726 * .5 ** .363


def tp_equip(i, wfs):
    T, n = i["ac|weights|MTOW"], i["ac|num_passengers_max"]
    b = np.sqrt(i["ac|geom|wing|S_ref"] * i["ac|geom|wing|AR"])
    controls, hydraulics = .23 * T ** .666, .2673 * (i["ac|geom|fuselage|length"] * b) ** .937
    electric = 12.57 * (wfs + WAV) ** .51
    aircon = .265 * T ** .52 * n ** .68 * WAV ** .17 * .95
    return controls + hydraulics + WAV + electric + aircon + (30 + 1.2 * n) + .412 * n ** 1.145 * T ** .489 + .003 * T


TPW = ["ac|weights|MTOW", "ac|weights|W_fuel_max", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep", "ac|geom|wing|taper", "ac|geom|wing|toverc", "ac|q_cruise"]
TPE = ["ac|geom|hstab|S_ref", "ac|geom|vstab|S_ref"]
TPF = ["ac|weights|MTOW", "ac|geom|fuselage|length", "ac|geom|fuselage|height", "ac|geom|fuselage|width", "ac|geom|fuselage|S_wet", "ac|geom|hstab|c4_to_wing_c4", "ac|q_cruise"]
GEAR = {"ac|geom|maingear|length": ("ft", sc, U(1, 12)), "ac|geom|nosegear|length": ("ft", sc, U(1, 10))}
PTO = {"P_TO": ("hp", sc, LU(100, 5000))}
TPQ = ["ac|weights|MTOW", "ac|num_passengers_max", "ac|geom|fuselage|length", "ac|geom|wing|AR", "ac|geom|wing|S_ref"]
T = W % "turboprop"
nu = lambda r: some(r, .6, n_ult=fl(2, 8))
n_ = lambda o: o.get("n_ult", NU)
Spec(T + "WingWeight_SmallTurboprop", "C23", inp(*TPW), {"W_wing": "lb"}, nn=None, opts=nu, ref=lambda i, o: {"W_wing": tp_wing(i, n_(o))}, weight=.6)
Spec(T + "EmpennageWeight_SmallTurboprop", "C23", inp(*TPE), {"W_empennage": "lb"}, nn=None, opts=nu, ref=lambda i, o: {"W_empennage": tp_emp(i, n_(o))}, weight=.6)
Spec(T + "FuselageWeight_SmallTurboprop", "C23", inp(*TPF), {"W_fuselage": "lb"}, nn=None, opts=nu, ref=lambda i, o: {"W_fuselage": tp_fus(i, n_(o))}, weight=.6)
Spec(T + "NacelleWeight_SmallSingleTurboprop", "C23", PTO, {"W_nacelle": "lb"}, nn=None, ref=lambda i, o: {"W_nacelle": 2.5 * i["P_TO"] ** .5}, weight=.4)
Spec(T + "NacelleWeight_MultiTurboprop", "C23", PTO, {"W_nacelle": "lb"}, nn=None, ref=lambda i, o: {"W_nacelle": .14 * i["P_TO"]}, weight=.4)
Spec(T + "LandingGearWeight_SmallTurboprop", "C23", inp("ac|weights|MLW", **GEAR), {"W_gear": "lb"}, nn=None, opts=nu, ref=lambda i, o: {"W_gear": tp_gear(i, n_(o))}, weight=.6)
Spec(T + "FuelSystemWeight_SmallTurboprop", "C23", inp("ac|weights|W_fuel_max"), {"W_fuelsystem": "lb"}, nn=None, opts=lambda r: some(r, .6, Kfsp=fl(5.5, 7)),
     ref=lambda i, o: {"W_fuelsystem": tp_fs(i, o.get("Kfsp", 6.55))}, weight=.6)
Spec(T + "EquipmentWeight_SmallTurboprop", "C23", inp(*TPQ, W_fuelsystem=("lb", sc, LU(20, 600))), {"W_equipment": "lb"}, nn=None,
     ref=lambda i, o: {"W_equipment": tp_equip(i, i["W_fuelsystem"])}, weight=.6)


def tp_oew(extra):
    def f(i, o):
        wing, emp, fus, nac, gear, fs = tp_wing(i), tp_emp(i), tp_fus(i), 2.5 * i["P_TO"] ** .5, tp_gear(i), tp_fs(i)
        eq = tp_equip(i, fs)
        return {"W_wing": wing, "W_empennage": emp, "W_fuselage": fus, "W_nacelle": nac, "W_gear": gear, "W_fuelsystem": fs, "W_equipment": eq,
                "W_structure": wing + emp + fus + nac + gear, "W_structure_adjusted": 1.6 * (wing + emp + fus + nac + gear),
                "OEW": 1.6 * (wing + emp + fus + nac + gear) + fs + eq + sum(i[k] for k in extra) + 20 / LB}
    return f


TPO = {k: "lb" for k in ["W_wing", "W_empennage", "W_fuselage", "W_nacelle", "W_gear", "W_fuelsystem", "W_equipment", "W_structure", "W_structure_adjusted", "OEW"]}
for cls, extra in ((T + "SingleTurboPropEmptyWeight", ["W_engine", "W_propeller"]),
                   (W % "twin_hybrid" + "TwinSeriesHybridEmptyWeight", ["W_engine", "W_motors", "W_generator", "W_propeller"])):
    Spec(cls, "C23", inp(*dict.fromkeys(TPW + TPE + TPF + TPQ), "ac|weights|MLW", **GEAR, **PTO, **{k: ("lb", sc, LU(20, 4000)) for k in extra}), TPO, nn=None, ref=tp_oew(extra), group=True, weight=1.5)


# ------------------------------------------------------------------ jet transports and blended wing bodies
def J_wing(i, o):
    return .0051 * (i["ac|weights|MTOW"] * o.get("n_ult", 3.75)) ** .557 * i["ac|geom|wing|S_ref"] ** .649 * i["ac|geom|wing|AR"] ** .5 * i["ac|geom|wing|toverc"] ** -.4 \
        * (1 + i["ac|geom|wing|taper"]) ** .1 / np.cos(i["ac|geom|wing|c4sweep"]) * (o.get("control_surface_area_frac", .1) * i["ac|geom|wing|S_ref"]) ** .1


def J_hconst(i, o):
    return 1 + o.get("fuselage_width_frac", .5) * i["ac|geom|fuselage|height"] / np.sqrt(i["ac|geom|hstab|S_ref"] * i["ac|geom|hstab|AR"])


def J_hstab(i, o, const):
    L = i["ac|geom|hstab|c4_to_wing_c4"]
    return .0379 * o.get("K_uht", 1.0) * const ** -.25 * i["ac|weights|MTOW"] ** .639 * o.get("n_ult", 3.75) ** .1 * i["ac|geom|hstab|S_ref"] ** .75 / L * (.3 * L) ** .704 \
        / np.cos(i["ac|geom|hstab|c4sweep"]) * i["ac|geom|hstab|AR"] ** .166 * (1 + o.get("elevator_area_frac", .2)) ** .1


def J_vstab(i, o):
    L = i["ac|geom|vstab|c4_to_wing_c4"]
    return .0026 * (2.0 if o.get("T_tail", False) else 1.0) ** .225 * i["ac|weights|MTOW"] ** .556 * o.get("n_ult", 3.75) ** .536 * L ** -.5 * L ** .875 * i["ac|geom|vstab|S_ref"] ** .5 \
        / np.cos(i["ac|geom|vstab|c4sweep"]) * i["ac|geom|vstab|AR"] ** .35 * i["ac|geom|vstab|toverc"] ** -.5


def J_kws(i, o):
    t = i["ac|geom|wing|taper"]
    b = np.sqrt(i["ac|geom|wing|S_ref"] * i["ac|geom|wing|AR"])
    return .75 * (1 + 2 * t) / (1 + t) * b * np.tan(i["ac|geom|wing|c4sweep"]) / i["ac|geom|fuselage|length"]


def J_fus(i, o, kws):
    L, D = i["ac|geom|fuselage|length"], i["ac|geom|fuselage|height"]
    return .328 * o.get("K_door", 1) * o.get("K_lg", 1) * (i["ac|weights|MTOW"] * o.get("n_ult", 3.75)) ** .5 * L ** .25 * i["ac|geom|fuselage|S_wet"] ** .302 * (1 + kws) ** .04 * (L / D) ** .1


def J_mlg(i, o):
    return .0106 * o.get("kneeling_gear_parameter", o.get("kneeling_main_gear_parameter", 1.0)) * i["ac|weights|MLW"] ** .888 * o.get("n_land_ult", 4.2) ** .25 * i["ac|geom|maingear|length"] ** .4 \
        * i["ac|geom|maingear|num_wheels"] ** .321 * i["ac|geom|maingear|num_shock_struts"] ** -.5 * i["ac|aero|Vstall_land"] ** .1


def J_nlg(i, o):
    return .032 * o.get("kneeling_gear_parameter", o.get("kneeling_nose_gear_parameter", 1.0)) * i["ac|weights|MLW"] ** .646 * o.get("n_land_ult", 4.2) ** .2 * i["ac|geom|nosegear|length"] ** .5 \
        * i["ac|geom|nosegear|num_wheels"] ** .45


def J_engsys(i, We):
    Th, N = i["ac|propulsion|engine|rating"], i["ac|propulsion|num_engines"]
    return {"W_thrust_rev": .034 * Th * N, "W_eng_control": .26 * N * np.sqrt(Th), "W_fuelsystem": 1.07 * i["ac|weights|W_fuel_max"] ** .58 * N ** .43 * i["ac|aero|Mach_max"] ** .34,
            "W_eng_start": 9.33 * (We / 1000) ** 1.078 * N}


def J_furn(i, o):
    n = i["ac|num_passengers_max"]
    return 55 * i["ac|num_flight_deck_crew"] + 32 * n + 15 * i["ac|num_cabin_crew"] + o.get("K_lav", .7) * n ** 1.33 + o.get("K_buf", 4.0) * n ** 1.12 \
        + 109 * (n * (1 + i["ac|cabin_pressure"]) / 100) ** .505 + .771 * i["ac|weights|MTOW"] / 1000


def J_equip(i, o, V, wfs):
    M, crew, cab, pax, N = (i[k] for k in ("ac|weights|MTOW", "ac|num_flight_deck_crew", "ac|num_cabin_crew", "ac|num_passengers_max", "ac|propulsion|num_engines"))
    avio = o.get("coeff_avionics", .5) * (crew * (15 + .032 * M / 1000) + N * (5 + .006 * M / 1000) + .15 * M / 1000 + .012 * M)
    people = crew + cab + pax
    return {"W_flight_controls": o.get("coeff_fc", 1.2 * .64) * M ** (2 / 3), "W_avionics": avio, "W_electrical": 1163 * ((wfs + avio) / 1000) ** .506,
            "W_ac_pressurize_antiice": 469 * (V * people / 1e4) ** .419, "W_oxygen": 7 * people ** .702, "W_APU": o.get("APU_weight_frac", .0085) * M}


JT = W % "jet_transport"
JW = ["ac|weights|MTOW", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep", "ac|geom|wing|taper", "ac|geom|wing|toverc"]
JH = ["ac|weights|MTOW", "ac|geom|hstab|S_ref", "ac|geom|hstab|AR", "ac|geom|hstab|c4sweep", "ac|geom|hstab|c4_to_wing_c4"]
JV = ["ac|weights|MTOW", "ac|geom|vstab|S_ref", "ac|geom|vstab|AR", "ac|geom|vstab|c4sweep", "ac|geom|vstab|c4_to_wing_c4", "ac|geom|vstab|toverc"]
JK = ["ac|geom|wing|taper", "ac|geom|wing|S_ref", "ac|geom|wing|AR", "ac|geom|wing|c4sweep", "ac|geom|fuselage|length"]
JF = ["ac|weights|MTOW", "ac|geom|fuselage|length", "ac|geom|fuselage|S_wet", "ac|geom|fuselage|height"]
JM = ["ac|weights|MLW", "ac|geom|maingear|num_wheels", "ac|geom|maingear|num_shock_struts", "ac|aero|Vstall_land"]
JN = ["ac|weights|MLW", "ac|geom|nosegear|num_wheels"]
JE = ["ac|propulsion|num_engines", "ac|aero|Mach_max", "ac|weights|W_fuel_max"]
JU = ["ac|num_passengers_max", "ac|num_flight_deck_crew", "ac|num_cabin_crew", "ac|cabin_pressure", "ac|weights|MTOW"]
JQ = ["ac|weights|MTOW", "ac|num_passengers_max", "ac|num_cabin_crew", "ac|num_flight_deck_crew", "ac|propulsion|num_engines"]
MGL, NGL = {"ac|geom|maingear|length": ("inch", sc, U(30, 150))}, {"ac|geom|nosegear|length": ("inch", sc, U(20, 120))}
RAT = {"ac|propulsion|engine|rating": ("lbf", sc, LU(2e3, 1.1e5))}
Spec(JT + "WingWeight_JetTransport", "C23", inp(*JW), {"W_wing": "lb"}, nn=None, opts=lambda r: some(r, .6, n_ult=fl(2, 5), control_surface_area_frac=fl(.03, .3)), ref=lambda i, o: {"W_wing": J_wing(i, o)}, weight=.6)
Spec(JT + "HstabConst_JetTransport", "C23", inp("ac|geom|hstab|S_ref", "ac|geom|hstab|AR", "ac|geom|fuselage|height"), {"HstabConst": None}, nn=None, opts=lambda r: some(r, .6, fuselage_width_frac=fl(.1, .9)),
     ref=lambda i, o: {"HstabConst": J_hconst(i, o)}, weight=.5)
Spec(JT + "HstabWeight_JetTransport", "C23", inp(*JH, HstabConst=(None, sc, U(1, 2.5))), {"W_hstab": "lb"}, nn=None, opts=lambda r: some(r, .6, n_ult=fl(2, 5), K_uht=fl(1, 1.2), elevator_area_frac=fl(.05, .5)),
     ref=lambda i, o: {"W_hstab": J_hstab(i, o, i["HstabConst"])}, weight=.6)
Spec(JT + "VstabWeight_JetTransport", "C23", inp(*JV), {"W_vstab": "lb"}, nn=None, opts=lambda r: some(r, .6, n_ult=fl(2, 5), T_tail=lambda r: bool(r.random() < .6)), ref=lambda i, o: {"W_vstab": J_vstab(i, o)}, weight=.6)
Spec(JT + "FuselageKws_JetTransport", "C23", inp(*JK), {"K_ws": None}, nn=None, ref=lambda i, o: {"K_ws": J_kws(i, o)}, weight=.5)
Spec(JT + "FuselageWeight_JetTransport", "C23", inp(*JF, K_ws=(None, sc, U(0, 1.2, edges=(0.0,)))), {"W_fuselage": "lb"}, nn=None, opts=lambda r: some(r, .6, n_ult=fl(2, 5), K_door=fl(1, 1.25), K_lg=fl(1, 1.12)),
     ref=lambda i, o: {"W_fuselage": J_fus(i, o, i["K_ws"])}, weight=.6)
Spec(JT + "MainLandingGearWeight_JetTransport", "C23", inp(*JM, **MGL), {"W_mlg": "lb"}, nn=None, opts=lambda r: some(r, .6, n_land_ult=fl(2, 6), kneeling_gear_parameter=fl(1, 1.2)), ref=lambda i, o: {"W_mlg": J_mlg(i, o)}, weight=.6)
Spec(JT + "NoseLandingGearWeight_JetTransport", "C23", inp(*JN, **NGL), {"W_nlg": "lb"}, nn=None, opts=lambda r: some(r, .6, n_land_ult=fl(2, 6), kneeling_gear_parameter=fl(1, 1.2)), ref=lambda i, o: {"W_nlg": J_nlg(i, o)}, weight=.6)
Spec(JT + "EngineWeight_JetTransport", "C23", RAT, {"W_engine": "lb"}, nn=None, ref=lambda i, o: {"W_engine": i["ac|propulsion|engine|rating"] / 5.5}, weight=.4)
Spec(JT + "EngineSystemsWeight_JetTransport", "C23", inp(*JE, W_engine=("lb", sc, LU(400, 2e4)), **RAT), {k: "lb" for k in ("W_thrust_rev", "W_eng_control", "W_fuelsystem", "W_eng_start")}, nn=None,
     ref=lambda i, o: J_engsys(i, i["W_engine"]), weight=.6)
Spec(JT + "NacelleWeight_JetTransport", "C23", inp("ac|propulsion|num_engines", **RAT), {"W_nacelle": "lb"}, nn=None, ref=lambda i, o: {"W_nacelle": .065 * i["ac|propulsion|engine|rating"] * i["ac|propulsion|num_engines"]}, weight=.4)
Spec(JT + "FurnishingWeight_JetTransport", "C23", inp(*JU), {"W_furnishings": "lb"}, nn=None, opts=lambda r: some(r, .6, K_lav=fl(.31, 1.11), K_buf=fl(1.02, 5.68)), ref=lambda i, o: {"W_furnishings": J_furn(i, o)}, weight=.6)
EQO = ("W_flight_controls", "W_avionics", "W_electrical", "W_ac_pressurize_antiice", "W_oxygen", "W_APU")
VP = {"ac|geom|V_pressurized": ("ft**3", sc, LU(500, 5e4))}
Spec(JT + "EquipmentWeight_JetTransport", "C23", inp(*JQ, W_fuelsystem=("lb", sc, LU(100, 3000)), **VP), {k: "lb" for k in EQO}, nn=None,
     opts=lambda r: some(r, .6, coeff_fc=fl(.4, 1), coeff_avionics=fl(.3, 1), APU_weight_frac=fl(.004, .012)), ref=lambda i, o: J_equip(i, o, i["ac|geom|V_pressurized"], i["W_fuelsystem"]), weight=.6)


def j_opts(r, **more):
    return some(r, .5, structural_fudge=fl(.8, 1.5), total_fudge=fl(.8, 1.4), wing_weight_multiplier=fl(.7, 1.5), n_ult=fl(2, 5), n_land_ult=fl(2, 6), control_surface_area_frac=fl(.03, .3),
                kneeling_main_gear_parameter=fl(1, 1.126), kneeling_nose_gear_parameter=fl(1, 1.15), K_lav=fl(.31, 1.11), K_buf=fl(1.02, 5.68), coeff_fc=fl(.4, 1), coeff_avionics=fl(.3, 1),
                APU_weight_frac=fl(.004, .012), **more)


def j_oew(kind):
    def f(i, o):
        k_s, k_t = (1.2, 1.15) if kind == "jet" else (1.0, 1.0)
        engines = i["ac|propulsion|engine|rating"] / 5.5
        out = dict(J_engsys(i, engines))
        s = {"W_wing": J_wing(i, o), "W_mlg": J_mlg(i, {k: v for k, v in o.items()}), "W_nlg": J_nlg(i, o), "W_nacelle": .065 * i["ac|propulsion|engine|rating"] * i["ac|propulsion|num_engines"]}
        if kind == "jet":
            s.update(W_hstab=J_hstab(i, o, J_hconst(i, o)), W_vstab=J_vstab(i, o), W_fuselage=J_fus(i, o, J_kws(i, o)))
            V = pi / 4 * i["ac|geom|fuselage|height"] ** 2 * i["ac|geom|fuselage|length"] * o.get("cabin_length_frac", .75)
        else:
            s.update(W_cabin=bwb_cabin(i), W_aftbody=bwb_aft(i))
            V = i["ac|geom|V_pressurized"]
        out.update(J_equip(i, o, V, out["W_fuelsystem"]))
        out.update(W_furnishings=J_furn(i, o), W_engines=engines * i["ac|propulsion|num_engines"])
        struct = o.get("structural_fudge", k_s) * (sum(s.values()) + (o.get("wing_weight_multiplier", 1.0) - 1) * s["W_wing"])
        total = o.get("total_fudge", k_t) * (struct + sum(out.values()))
        return {**s, **out, "W_structure": struct, "OEW": total}
    return f


def bwb_cabin(i):
    return 1.803246 * i["ac|weights|MTOW"] ** .166552 * i["ac|geom|centerbody|S_cabin"] ** 1.061158


def bwb_aft(i):
    return .53 * (1 + .05 * i["ac|propulsion|num_engines"]) * i["ac|geom|centerbody|S_aftbody"] * i["ac|weights|MTOW"] ** .2 * (i["ac|geom|centerbody|taper_aftbody"] + .5)


SYS = ["W_engines", "W_thrust_rev", "W_eng_control", "W_fuelsystem", "W_eng_start", "W_furnishings", *EQO]
Spec(JT + "JetTransportEmptyWeight", "C23", inp(*dict.fromkeys(JW + JH + JV + JK + JF + JM + JN + JE + JU + JQ), **MGL, **NGL, **RAT),
     {k: "lb" for k in ["W_wing", "W_hstab", "W_vstab", "W_fuselage", "W_mlg", "W_nlg", "W_nacelle", "W_structure", "OEW"] + SYS}, nn=None, group=True, weight=1.5, ref=j_oew("jet"),
     opts=lambda r: j_opts(r, fuselage_width_frac=fl(.1, .9), K_uht=fl(1, 1.2), elevator_area_frac=fl(.05, .5), T_tail=lambda r: bool(r.random() < .6), K_door=fl(1, 1.25), K_lg=fl(1, 1.12), cabin_length_frac=fl(.4, .95)))
CB = {"ac|geom|centerbody|S_cabin": ("ft**2", sc, LU(300, 8000))}
CA = {"ac|geom|centerbody|S_aftbody": ("ft**2", sc, LU(100, 4000)), "ac|geom|centerbody|taper_aftbody": (None, sc, U(.05, 1))}
B = W % "BWB"
Spec(B + "CabinWeight_BWB", "C23", inp("ac|weights|MTOW", **CB), {"W_cabin": "lb"}, nn=None, ref=lambda i, o: {"W_cabin": bwb_cabin(i)}, weight=.5)
Spec(B + "AftbodyWeight_BWB", "C23", inp("ac|weights|MTOW", "ac|propulsion|num_engines", **CA), {"W_aftbody": "lb"}, nn=None, ref=lambda i, o: {"W_aftbody": bwb_aft(i)}, weight=.5)
Spec(B + "BWBEmptyWeight", "C23", inp(*dict.fromkeys(JW + JM + JN + JE + JU + JQ), **MGL, **NGL, **RAT, **CB, **CA, **VP),
     {k: "lb" for k in ["W_wing", "W_cabin", "W_aftbody", "W_mlg", "W_nlg", "W_nacelle", "W_structure", "OEW"] + SYS}, nn=None, group=True, weight=1.5, ref=j_oew("bwb"), opts=j_opts)


# ------------------------------------------------------------------ operating cost
def _cost_in(o):
    d = {"fuel_burn": ("kg", sc, U(0, 5000, edges=(0.0,))), "OEW": ("kg", sc, U(1000, 30000))}
    for k in range(1, o.get("n_components", 1) + 1):
        d["component_%d_weight" % k], d["component_%d_NR_cost" % k] = ("kg", sc, U(10, 900)), ("USD", sc, U(0, 1e6))
    for k in range(1, (o.get("n_batteries") or 0) + 1):
        d["battery_%d_NR_cost" % k], d["battery_%d_energy_used" % k] = ("USD", sc, U(0, 1e6)), ("MJ", sc, U(0, 9000))
    return d


def _cost(i, o):
    C, N = range(1, o.get("n_components", 1) + 1), o.get("n_batteries")
    prem = o.get("OEM_premium", 1.1)
    air = (i["OEW"] - sum(i["component_%d_weight" % k] for k in C)) * o.get("airframe_cost_per_kg", 266.0) * prem
    nr = air + prem * sum(i["component_%d_NR_cost" % k] for k in C)
    out = {"airframe_NR_cost": air, "total_NR_cost": nr, "fuel_cost": i["fuel_burn"] * o.get("fuel_cost_per_kg", 2.5 / 3.08)}
    trip = nr / (365.0 * o.get("aircraft_daily_cycles", 5) * o.get("aircraft_life_years", 15))
    energy, batt = out["fuel_cost"], 0.0
    if N is not None:
        out["electricity_cost"] = o.get("electricity_cost_per_MJ", .01) * sum((i["battery_%d_energy_used" % k] for k in range(1, N + 1)), np.zeros(1))
        out["trip_battery_cost"] = batt = sum((i["battery_%d_NR_cost" % k] for k in range(1, N + 1)), np.zeros(1)) / o.get("battery_replacement_cycles", 1500)
        energy = energy + out["electricity_cost"]
    out["trip_energy_cost"], out["trip_direct_operating_cost"] = energy, energy + trip + batt
    return out


Spec("openconcept.costs:TurbopropOperatingCost", "C23", _cost_in,
     lambda o: {k: "USD" for k in ["airframe_NR_cost", "total_NR_cost", "fuel_cost", "trip_energy_cost", "trip_direct_operating_cost"] + (["electricity_cost", "trip_battery_cost"] if o.get("n_batteries") is not None else [])},
     nn=None, ref=_cost, weight=1.5, rtol=1e-10,
     opts=lambda r: some(r, .6, n_components=lambda r: int(r.integers(1, 6)), n_batteries=lambda r: int(r.integers(1, 4)), airframe_cost_per_kg=fl(50, 900), fuel_cost_per_kg=fl(.2, 3), electricity_cost_per_MJ=fl(.002, .1),
                         aircraft_life_years=lambda r: int(r.integers(5, 40)), aircraft_daily_cycles=fl(1, 12), battery_replacement_cycles=lambda r: int(r.integers(200, 5000)), OEM_premium=fl(1, 1.6)))

# ------------------------------------------------------------------ planform geometry and tails
G = "openconcept.geometry:"


def _mac_trap(i, o):
    # 2/S int_0^(b/2) c^2 dy by 3-point Gauss-Legendre (exact for a quadratic)
    S, AR, t = i["S_ref"], i["AR"], i["taper"]
    b = np.sqrt(S * AR)
    cr = 2 * S / b / (1 + t)
    y, w = np.polynomial.legendre.leggauss(3)
    eta = (y + 1) / 2
    return {"MAC": 2 / S * b / 2 * np.sum(w / 2 * (cr * (1 - eta * (1 - t))) ** 2)}


Spec(G + "WingMACTrapezoidal", "C24", {"S_ref": ("m**2", sc, LU(5, 900)), "AR": (None, sc, U(3, 25)), "taper": (None, sc, U(.02, 1.6, edges=(1.0,)))}, {"MAC": "m"}, nn=None, ref=_mac_trap)
Spec(G + "WingSpan", "C24", {"S_ref": ("m**2", sc, LU(5, 900)), "AR": (None, sc, U(3, 25))}, {"span": "m"}, nn=None, ref=lambda i, o: {"span": np.sqrt(i["S_ref"] * i["AR"])})
Spec(G + "WingAspectRatio", "C24", {"S_ref": ("m**2", sc, LU(5, 900)), "span": ("m", sc, U(3, 90))}, {"AR": None}, nn=None, ref=lambda i, o: {"AR": i["span"] ** 2 / i["S_ref"]})
Spec(G + "CylinderSurfaceArea", "C24", {"L": ("m", sc, U(0, 90, edges=(0.0,))), "D": ("m", sc, U(0, 10))}, {"A": "m**2"}, nn=None, ref=lambda i, o: {"A": pi * i["D"] * i["L"]})


def sec_in(o, le=True):
    n = o.get("num_sections", 2)
    d = {"y_sec": ("m", (n - 1,), U(0, 1)), "chord_sec": ("m", (n,), U(.3, 12))}
    if le:
        d["x_LE_sec"] = ("m", (n,), U(-4, 20))
    return d


def sec_fix(v, o, r):
    n = o.get("num_sections", 2)
    v["y_sec"] = -np.cumsum(r.uniform(.3, 12, n - 1))[::-1]
    return v


def sec_opts(r, **more):
    n = int(r.integers(2, 8))
    d = {"num_sections": n} if (n != 2 or r.random() < .5) else {}
    if r.random() < .6:
        a = int(r.integers(0, n - 1))
        d["idx_sec_start"] = a
        if r.random() < .7:
            d["idx_sec_end"] = int(r.integers(a + 1, n))
    elif r.random() < .4:
        d["idx_sec_end"] = int(r.integers(1, n))
    d.update(some(r, .6, **more))
    return d


def panels(i, o):
    """(y, chord, x_LE) along the selected sections, tip to root."""
    n, a, b = o.get("num_sections", 2), o.get("idx_sec_start", 0), o.get("idx_sec_end")
    b = n - 1 if b is None else b
    y = np.append(i["y_sec"], 0.0)[a:b + 1]
    return y, i["chord_sec"][a:b + 1], (i["x_LE_sec"][a:b + 1] if "x_LE_sec" in i else None)


def quad(y, fs):
    """Exact integral over the piecewise-linear planform of f(values at the point), 4-point Gauss per panel."""
    g, w = np.polynomial.legendre.leggauss(4)
    tot = 0.0
    for j in range(len(y) - 1):
        s = (g + 1) / 2
        tot = tot + (y[j + 1] - y[j]) * np.sum(w / 2 * fs(j, s))
    return tot


def lin(a, j, s):
    return a[j] + (a[j + 1] - a[j]) * s


def _sweep(i, o):
    y, c, x = panels(i, o)
    q = x + c / 4
    dq, dy = np.diff(q), np.diff(y)
    cosl = dy / np.hypot(dq, dy)
    A = (c[1:] + c[:-1]) / 2 * dy
    return {"c4sweep": np.degrees(np.arccos(np.clip(np.sum(cosl * A) / np.sum(A), -1, 1)))}


def _mac_sec(i, o):
    y, c, x = panels(i, o)
    S = quad(y, lambda j, s: lin(c, j, s))
    q = x + c / 4
    return {"MAC": quad(y, lambda j, s: lin(c, j, s) ** 2) / S, "x_c4MAC": quad(y, lambda j, s: lin(c, j, s) * lin(q, j, s)) / S}


def _area(i, o):
    y, c, _ = panels(i, o)
    return {"S": 2 * (o.get("chord_frac_end", 1.0) - o.get("chord_frac_start", 0.0)) * quad(y, lambda j, s: lin(c, j, s))}


def sweep_fix(v, o, r):
    """A straight quarter-chord line has a legitimate kink of arccos at zero sweep: keep away from it."""
    v = sec_fix(v, o, r)
    return v


Spec(G + "WingSweepFromSections", "C24", lambda o: sec_in(o), {"c4sweep": "deg"}, nn=None, opts=sec_opts, fixup=sweep_fix, ref=_sweep, atol=1e-6)
Spec(G + "WingAreaFromSections", "C24", lambda o: sec_in(o, False), {"S": "m**2"}, nn=None, opts=lambda r: sec_opts(r, chord_frac_start=fl(0, .45), chord_frac_end=fl(.5, 1)), fixup=sec_fix, ref=_area)
Spec(G + "WingMACFromSections", "C24", lambda o: sec_in(o), {"MAC": "m", "x_c4MAC": "m"}, nn=None, opts=sec_opts, fixup=sec_fix, ref=_mac_sec, atol={"x_c4MAC": 1e-9})
ST = "openconcept.stability:"
Spec(ST + "HStabVolumeCoefficientSizing", "C24", {"ac|geom|wing|S_ref": ("ft**2", sc, LU(80, 6000)), "ac|geom|wing|MAC": ("ft", sc, U(2, 30)), "ac|geom|hstab|c4_to_wing_c4": ("ft", sc, LU(10, 120))},
     {"ac|geom|hstab|S_ref": "ft**2"}, nn=None, opts=lambda r: some(r, .6, C_ht=fl(.3, 1.5)),
     ref=lambda i, o: {"ac|geom|hstab|S_ref": o.get("C_ht", 1.0) * i["ac|geom|wing|S_ref"] * i["ac|geom|wing|MAC"] / i["ac|geom|hstab|c4_to_wing_c4"]})
Spec(ST + "VStabVolumeCoefficientSizing", "C24", {"ac|geom|wing|S_ref": ("ft**2", sc, LU(80, 6000)), "ac|geom|wing|AR": (None, sc, U(3, 25)), "ac|geom|vstab|c4_to_wing_c4": ("ft", sc, LU(10, 120))},
     {"ac|geom|vstab|S_ref": "ft**2"}, nn=None, opts=lambda r: some(r, .6, C_vt=fl(.02, .2)),
     ref=lambda i, o: {"ac|geom|vstab|S_ref": o.get("C_vt", .09) * i["ac|geom|wing|S_ref"] * np.sqrt(i["ac|geom|wing|S_ref"] * i["ac|geom|wing|AR"]) / i["ac|geom|vstab|c4_to_wing_c4"]})

# ------------------------------------------------------------------ hydrogen tank
H = "openconcept.energy_storage.hydrogen.structural:"
R, L = ("m", sc, U(.05, 4)), ("m", sc, MIX(U(0, 12), CH(0.0, 1e-9, .01)))


def area(r, l):
    return 4 * pi * r ** 2 + 2 * pi * r * l


def inner(p, r, l, o, pre=""):
    t = p * r * o.get(pre + "safety_factor", 1.5 if pre else 2.0) / o.get(pre + "yield_stress", 413.7e6 if pre else 470.2e6)
    return t, area(r, l) * t * o.get(pre + "density", 2796.0 if pre else 2699.0)


def outer(p, r, l, o, pre=""):
    E, SF = o.get(pre + "youngs_modulus", 8e10), o.get(pre + "safety_factor", 2.0)
    # critical buckling pressures p = .92 E t^2.5 / (L r^1.5) (cylinder), p = .365 E (t/r)^2 (sphere)
    t = o.get("stiffening_multiplier", .8) * np.maximum((SF * p * l * r ** 1.5 / .92 / E) ** .4, r * np.sqrt(SF * p / .365 / E))
    return t, area(r, l) * t * o.get(pre + "density", 2699.0)


def mli(r, l, n, o):
    return (o.get("foil_layer_areal_weight", 18e-3) + o.get("spacer_layer_areal_weight", 12e-3)) * n * area(r, l)


def tank(p_in, p_out, r, l, gap, n, o):
    return o.get("weight_fudge_factor", 1.1) * (inner(p_in, r, l, o, "inner_")[1] + outer(p_out, r + gap, l, o, "outer_")[1] + mli(r, l, n, {}))


DP = ("Pa", sc, LU(2e4, 1.5e6))
Spec(H + "PressureVesselWallThickness", "C25", {"design_pressure_differential": DP, "radius": R, "length": L}, {"thickness": "m", "weight": "kg"}, nn=None,
     opts=lambda r: some(r, .6, safety_factor=fl(1, 3), yield_stress=fl(1e8, 6e8), density=fl(1500, 8000)), D={"design_pressure_differential": 3e5, "radius": .5, "length": 2.0},
     ref=lambda i, o: dict(zip(("thickness", "weight"), inner(i["design_pressure_differential"], i["radius"], i["length"], o))))
Spec(H + "VacuumWallThickness", "C25", {"design_pressure_differential": DP, "radius": R, "length": L}, {"thickness": "m", "weight": "kg"}, nn=None,
     opts=lambda r: some(r, .6, safety_factor=fl(1, 4), stiffening_multiplier=fl(.3, 1), youngs_modulus=fl(3e10, 2.2e11), density=fl(1500, 8000)), D={"design_pressure_differential": 101325.0, "radius": .5, "length": 2.0},
     ref=lambda i, o: dict(zip(("thickness", "weight"), outer(i["design_pressure_differential"], i["radius"], i["length"], o))))
Spec(H + "MLIWeight", "C25", {"radius": R, "length": L, "N_layers": (None, sc, U(0, 90))}, {"weight": "kg"}, nn=None, opts=lambda r: some(r, .6, foil_layer_areal_weight=fl(.005, .05), spacer_layer_areal_weight=fl(.005, .05)),
     ref=lambda i, o: {"weight": mli(i["radius"], i["length"], i["N_layers"], o)})
VT = {"environment_design_pressure": ("Pa", sc, LU(2e4, 3e5)), "max_expected_operating_pressure": ("Pa", sc, LU(1e5, 1.5e6)), "vacuum_gap": ("m", sc, U(0, .3)), "radius": R, "length": L, "N_layers": (None, sc, U(5, 80))}
tank_opts = dict(weight_fudge_factor=fl(1, 1.5), stiffening_multiplier=fl(.3, 1), inner_safety_factor=fl(1, 3), inner_yield_stress=fl(1e8, 6e8), inner_density=fl(1500, 8000), outer_safety_factor=fl(1, 4),
                 outer_youngs_modulus=fl(3e10, 2.2e11), outer_density=fl(1500, 8000))


def _tank(i, o):
    return tank(i["max_expected_operating_pressure"], i["environment_design_pressure"], i["radius"], i["length"], i["vacuum_gap"], i["N_layers"], o)


Spec(H + "VacuumTankWeight", "C25", VT, {"weight": "kg"}, nn=None, opts=lambda r: some(r, .5, **tank_opts), ref=lambda i, o: {"weight": _tank(i, o)}, group=True)
Spec("openconcept.energy_storage.hydrogen.LH2_tank_no_boil_off:InitialLH2MassModification", "C25", {"radius": R, "length": L, "delta_m_liq": ("kg", "n", U(-50, 400))}, {"m_liq": "kg", "fill_level": None},
     opts=lambda r: some(r, .6, fill_level_init=fl(.1, 1), LH2_density=fl(50, 80)), D={"radius": 1.0, "length": .5, "delta_m_liq": 0.0},
     ref=lambda i, o: _lh2(i["radius"], i["length"], i["delta_m_liq"], o), atol={"m_liq": 1e-7, "fill_level": 1e-9})


def _lh2(r, l, dm, o):
    V, rho = pi * r ** 2 * (4 / 3 * r + l), o.get("LH2_density", 70.85)
    m = V * rho * o.get("fill_level_init", .95) - dm
    return {"m_liq": m, "fill_level": m / V / rho}


def cumsimp(q, T):
    """Cumulative integral of the quadratic through each consecutive triple of equispaced points (Simpson's scheme)."""
    n = len(q)
    h = T / (n - 1)
    out = np.zeros(n)
    for j in range(0, n - 2, 2):
        out[j + 1] = out[j] + h / 12 * (5 * q[j] + 8 * q[j + 1] - q[j + 2])
        out[j + 2] = out[j] + h / 3 * (q[j] + 4 * q[j + 1] + q[j + 2])
    return out


def _lh2tank(i, o):
    nn = o["num_nodes"]
    out = _lh2(i["radius"], i["length"], cumsimp(i["m_dot_liq"], i["integ.duration"][0]), o)
    out["tank_weight"] = _tank(i, o)
    out["total_weight"] = out["m_liq"] + out["tank_weight"]
    return out


Spec("openconcept.energy_storage.hydrogen:LH2TankNoBoilOff", "C25", dict(VT, **{"m_dot_liq": ("kg/s", "n", MIX(U(0, .05), U(-.01, .3), CH(0.0)))}, **{"integ.duration": ("s", sc, U(1, 9000))}),
     {"m_liq": "kg", "fill_level": None, "tank_weight": "kg", "total_weight": "kg"}, opts=lambda r: dict(some(r, .5, **tank_opts), **some(r, .5, fill_level_init=fl(.1, 1), LH2_density=fl(50, 80))),
     D={"radius": 1.0, "N_layers": 20, "vacuum_gap": .05}, ref=_lh2tank, pointwise=False, nnc=(3, 5, 7, 9, 11, 21), group=True, weight=2, atol={"m_liq": 1e-6, "fill_level": 1e-7, "total_weight": 1e-6})
