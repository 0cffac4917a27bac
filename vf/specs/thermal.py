"""Heat exchangers, ducts, liquid-cooled components, chillers, heat pipes, hoses, pumps, manifolds."""
import numpy as np
from scipy.interpolate import make_interp_spline, CubicSpline  # noqa: F401
from scipy.optimize import brentq
from ..spec import Spec, U, LU, MIX, CH, newton, direct
from .aero import fl, some
from .prop import simpson_cum, ODD, cumint

P = "openconcept.thermal:"
H = "openconcept.thermal.heat_exchanger:"
D = "openconcept.thermal.ducts:"
pi = np.pi


# ------------------------------------------------------------------ heat exchanger
def geom(i):
    tf, tp, tc, nt = i["fin_thickness"], i["plate_thickness"], i["case_thickness"], i["n_tall"]
    wc, hc, lc, nw, nl = (i[k] for k in ("channel_width_cold", "channel_height_cold", "fin_length_cold", "n_wide_cold", "n_long_cold"))
    wh, hh, lh = (i[k] for k in ("channel_width_hot", "channel_height_hot", "fin_length_hot"))
    Hh, W, L = (2 * (tf + tp) + hc + hh) * nt, (tf + wc) * nw, lc * nl
    nwh, nlh = L / (wh + tf), W / lh
    fins = tf * nt * ((wc + hc + tf) * L * nw + (wh + hh + tf) * lh * nlh * nwh)
    return {"height_overall": Hh, "width_overall": W, "length_overall": L, "frontal_area": W * Hh, "xs_area_cold": wc * hc * nw * nt, "heat_transfer_area_cold": 2 * (wc + hc) * L * nw * nt,
            "dh_cold": 4 * wc * hc * lc / (2 * (wc * lc + hc * lc + tf * hc) + tf * wc), "fin_area_ratio_cold": hc / (hc + wc), "contraction_ratio_cold": wc * hc * nw * nt / (W * Hh),
            "alpha_cold": wc / hc, "delta_cold": tf / lc, "gamma_cold": tf / wc, "xs_area_hot": wh * hh * nwh * nt, "heat_transfer_area_hot": 2 * (wh + hh) * lh * nlh * nwh * nt,
            "dh_hot": 2 * wh * hh / (wh + hh), "fin_area_ratio_hot": hh / (hh + wh), "contraction_ratio_hot": wh * hh * nwh * nt / Hh / L, "alpha_hot": wh / hh, "delta_hot": tf / lh, "gamma_hot": tf / wh,
            "component_weight": (2 * tp * L * W * nt + fins + tc * L * 2 * (Hh + W)) * i["material_rho"]}


mm = lambda a, b: ("mm", None, U(a, b))  # noqa: E731
GEO = {"fin_thickness": ("m", None, U(.00005, .0003)), "plate_thickness": ("m", None, U(.0001, .001)), "case_thickness": ("m", None, U(.001, .004)), "n_tall": (None, None, U(5, 60)),
       "channel_width_cold": ("m", None, U(.0005, .004)), "channel_height_cold": ("m", None, U(.003, .02)), "fin_length_cold": ("m", None, U(.003, .012)), "n_wide_cold": (None, None, U(30, 600)), "n_long_cold": (None, None, U(1, 8)),
       "channel_width_hot": ("m", None, U(.0005, .003)), "channel_height_hot": ("m", None, U(.0005, .004)), "fin_length_hot": ("m", None, U(.003, .012)), "material_rho": ("kg/m**3", None, U(1000, 8000))}
GU = {"component_weight": "kg", "length_overall": "m", "height_overall": "m", "width_overall": "m", "frontal_area": "m**2", "xs_area_cold": "m**2", "heat_transfer_area_cold": "m**2", "dh_cold": "m", "fin_area_ratio_cold": None,
      "contraction_ratio_cold": None, "alpha_cold": None, "delta_cold": None, "gamma_cold": None, "xs_area_hot": "m**2", "heat_transfer_area_hot": "m**2", "dh_hot": "m", "fin_area_ratio_hot": None, "contraction_ratio_hot": None,
      "alpha_hot": None, "delta_hot": None, "gamma_hot": None}
Spec(H + "OffsetStripFinGeometry", "C19", GEO, GU, nn=None, ref=lambda i, o: geom(i),
     D={"channel_width_hot": .001, "channel_height_hot": .001, "fin_length_hot": .006, "channel_width_cold": .001, "channel_height_cold": .012, "fin_length_cold": .006, "fin_thickness": .000102,
        "plate_thickness": .0002, "case_thickness": .002, "n_wide_cold": 100, "n_long_cold": 3, "n_tall": 20, "material_rho": 2700})


def colburn(Re, a, d, g):
    j = .6522 * Re ** -.5403 * a ** -.1541 * d ** .1499 * g ** -.0678 * (1 + 5.269e-5 * Re ** 1.34 * a ** .504 * d ** .456 * g ** -1.055) ** .1
    f = 9.6243 * Re ** -.7422 * a ** -.1856 * d ** .3053 * g ** -.2659 * (1 + 7.669e-8 * Re ** 4.429 * a ** .92 * d ** 3.767 * g ** .236) ** .1
    return j, f


ABG = {k + s: (None, None, U(*r)) for s in ("_cold", "_hot") for k, r in (("alpha", (.05, 2)), ("delta", (.005, .05)), ("gamma", (.02, .3)))}


def _osf(i, o):
    out = {}
    for s in ("_cold", "_hot"):
        out["j" + s], out["f" + s] = colburn(i["Re_dh" + s], i["alpha" + s], i["delta" + s], i["gamma" + s])
    return out


Spec(H + "OffsetStripFinData", "C19", {**ABG, "Re_dh_cold": (None, "n", LU(5, 2e4)), "Re_dh_hot": (None, "n", LU(5, 2e4))}, {"j_cold": None, "f_cold": None, "j_hot": None, "f_hot": None}, ref=_osf)
sides = lambda f: {k: v for s in ("_cold", "_hot") for k, v in f(s).items()}  # noqa: E731
Spec(H + "HydraulicDiameterReynoldsNumber", "C19", sides(lambda s: {"mdot" + s: ("kg/s", "n", LU(.01, 10)), "mu" + s: ("kg/m/s", None, LU(1e-5, 2e-3)), "xs_area" + s: ("m**2", None, LU(1e-3, .3)), "dh" + s: ("m", None, LU(5e-4, 5e-3))}),
     {"Re_dh_cold": None, "Re_dh_hot": None}, ref=lambda i, o: sides(lambda s: {"Re_dh" + s: i["mdot" + s] * i["dh" + s] / (i["xs_area" + s] * i["mu" + s])}))
Spec(H + "NusseltFromColburnJ", "C19", sides(lambda s: {"Re_dh" + s: (None, "n", LU(5, 2e4)), "j" + s: (None, "n", LU(1e-3, .1)), "k" + s: ("W/m/K", None, LU(.02, 1)), "mu" + s: ("kg/m/s", None, LU(1e-5, 2e-3)), "cp" + s: ("J/kg/K", None, U(800, 4500))}),
     {"Nu_dh_cold": None, "Nu_dh_hot": None}, ref=lambda i, o: sides(lambda s: {"Nu_dh" + s: i["j" + s] * i["Re_dh" + s] * (i["mu" + s] * i["cp" + s] / i["k" + s]) ** (1 / 3)}))
Spec(H + "ConvectiveCoefficient", "C19", sides(lambda s: {"Nu_dh" + s: (None, "n", LU(1, 200)), "dh" + s: ("m", None, LU(5e-4, 5e-3)), "k" + s: ("W/m/K", None, LU(.02, 1))}), {"h_conv_cold": "W/m**2/K", "h_conv_hot": "W/m**2/K"},
     ref=lambda i, o: sides(lambda s: {"h_conv" + s: i["Nu_dh" + s] * i["k" + s] / i["dh" + s]}))


def fin_eta(h, l, t, k, ratio):
    ml = np.sqrt(2 * h / (k * t)) * l
    return 1 - ratio * (1 - np.tanh(ml / 2) / (ml / 2))


Spec(H + "FinEfficiency", "C19", {**sides(lambda s: {"h_conv" + s: ("W/m**2/K", "n", LU(5, 5000)), "fin_area_ratio" + s: (None, None, U(.2, .98)), "channel_height" + s: ("m", None, U(.0005, .02))}), "fin_thickness": ("m", None, U(5e-5, 3e-4)), "material_k": ("W/m/K", None, U(10, 400))},
     {"eta_overall_cold": None, "eta_overall_hot": None}, ref=lambda i, o: sides(lambda s: {"eta_overall" + s: fin_eta(i["h_conv" + s], i["channel_height" + s], i["fin_thickness"], i["material_k"], i["fin_area_ratio" + s])}),
     inv=lambda rep, i, o, g: rep.require("FinEfficiency:range", all(np.all((g["eta_overall" + s] > 0) & (g["eta_overall" + s] <= 1)) for s in ("_cold", "_hot")), inputs=i))


def ua(i, o):
    R = sum((1 / i["h_conv" + s] + o.get("fouling_factor" + s, 0.0)) / (i["heat_transfer_area" + s] * i["eta_overall" + s]) for s in ("_cold", "_hot"))
    return {"UA_overall": 1 / R}


Spec(H + "UAOverall", "C19", sides(lambda s: {"h_conv" + s: ("W/m**2/K", "n", LU(5, 5000)), "heat_transfer_area" + s: ("m**2", None, LU(.3, 50)), "eta_overall" + s: (None, "n", U(.3, 1))}), {"UA_overall": "W/K"},
     opts=lambda r: some(r, .6, fouling_factor_cold=lambda r: float(10 ** r.uniform(-5, -2.5)), fouling_factor_hot=lambda r: float(10 ** r.uniform(-5, -2.5))), ref=ua)


def ntu(i, o):
    a, b = i["mdot_cold"] * i["cp_cold"], i["mdot_hot"] * i["cp_hot"]
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    return {"NTU": i["UA_overall"] / lo, "heat_max": lo * (i["T_in_hot"] - i["T_in_cold"]), "C_ratio": lo / hi}


Spec(H + "NTUMethod", "C19", {"UA_overall": ("W/K", "n", LU(10, 1e4)), **sides(lambda s: {"mdot" + s: ("kg/s", "n", LU(.05, 5)), "T_in" + s: ("K", "n", U(250, 380)), "cp" + s: ("J/kg/K", None, U(800, 4500))})},
     {"NTU": None, "heat_max": "W", "C_ratio": None}, ref=ntu, atol={"heat_max": 1e-7})


def eps_cross(N, C):
    return 1 - np.exp(N ** .22 / C * (np.exp(-C * N ** .78) - 1))


Spec(H + "CrossFlowNTUEffectiveness", "C19", {"NTU": (None, "n", LU(.05, 20)), "C_ratio": (None, "n", U(.01, 1, edges=(1.0,)))}, {"effectiveness": None}, ref=lambda i, o: {"effectiveness": eps_cross(i["NTU"], i["C_ratio"])},
     inv=lambda rep, i, o, g: rep.require("CrossFlowNTUEffectiveness:range", np.all((g["effectiveness"] > 0) & (g["effectiveness"] < 1)), inputs=i, outputs=g))
Spec(H + "NTUEffectivenessActualHeatTransfer", "C19", {"effectiveness": (None, "n", U(0, 1)), "heat_max": ("W", "n", U(-1e5, 1e5))}, {"heat_transfer": "W"}, ref=lambda i, o: {"heat_transfer": i["effectiveness"] * i["heat_max"]})


def touts(i, o):
    q = i["heat_transfer"]
    return {"T_out_cold": i["T_in_cold"] + q / (i["mdot_cold"] * i["cp_cold"]), "T_out_hot": i["T_in_hot"] - q / (i["mdot_hot"] * i["cp_hot"])}


Spec(H + "OutletTemperatures", "C19", {"heat_transfer": ("W", "n", U(-1e4, 1e5)), **sides(lambda s: {"mdot" + s: ("kg/s", "n", LU(.05, 5)), "T_in" + s: ("K", "n", U(250, 380)), "cp" + s: ("J/kg/K", None, U(800, 4500))})},
     {"T_out_cold": "K", "T_out_hot": "K"}, ref=touts)


def pdrop(i, o):
    out = {}
    for s, L in (("_cold", "length_overall"), ("_hot", "width_overall")):
        q = .5 * (i["mdot" + s] / i["xs_area" + s]) ** 2 / i["rho" + s]
        out["delta_p" + s] = -q * (o.get("Ke" + s, -.1) + o.get("Kc" + s, .3) + 4 * i[L] / i["dh" + s] * i["f" + s])
    return out


Spec(H + "PressureDrop", "C19", {"length_overall": ("m", None, U(.005, .1)), "width_overall": ("m", None, U(.05, 1.5)), **sides(lambda s: {"f" + s: (None, "n", LU(.01, .5)), "mdot" + s: ("kg/s", "n", LU(.05, 5)), "rho" + s: ("kg/m**3", "n", LU(.3, 1100)),
     "dh" + s: ("m", None, LU(5e-4, 5e-3)), "xs_area" + s: ("m**2", None, LU(1e-3, .3))})}, {"delta_p_cold": "Pa", "delta_p_hot": "Pa"},
     opts=lambda r: some(r, .6, Kc_cold=fl(0, .6), Ke_cold=fl(-.4, .4), Kc_hot=fl(0, .6), Ke_hot=fl(-.4, .4)), ref=pdrop)


def hx(i, o):
    """The whole exchanger from first to last relation."""
    v = {**i, **geom({**i, "n_wide_cold": i["ac|propulsion|thermal|hx|n_wide_cold"], "n_long_cold": i["ac|propulsion|thermal|hx|n_long_cold"], "n_tall": i["ac|propulsion|thermal|hx|n_tall"]})}
    for s in ("_cold", "_hot"):
        Re = v["mdot" + s] * v["dh" + s] / (v["xs_area" + s] * v["mu" + s])
        v["j" + s], v["f" + s] = colburn(Re, v["alpha" + s], v["delta" + s], v["gamma" + s])
        v["h_conv" + s] = v["j" + s] * Re * (v["mu" + s] * v["cp" + s] / v["k" + s]) ** (1 / 3) * v["k" + s] / v["dh" + s]
        v["eta_overall" + s] = fin_eta(v["h_conv" + s], v["channel_height" + s], v["fin_thickness"], v["material_k"], v["fin_area_ratio" + s])
    v.update(ua(v, {}))
    v.update(ntu(v, {}))
    v["effectiveness"] = eps_cross(v["NTU"], v["C_ratio"])
    v["heat_transfer"] = v["effectiveness"] * v["heat_max"]
    v.update(touts(v, {}))
    v.update(pdrop(v, {}))
    return v


# documented defaults of the assembled exchanger (SI)
HXD = {"case_thickness": .002, "fin_thickness": .000102, "plate_thickness": .0002, "material_k": 190., "material_rho": 2700., "channel_height_cold": .014, "channel_width_cold": .00135, "fin_length_cold": .006, "cp_cold": 1005.,
       "k_cold": .02596, "mu_cold": 1.789e-5, "channel_height_hot": .001, "channel_width_hot": .001, "fin_length_hot": .006, "cp_hot": 3801., "k_hot": .405, "mu_hot": 1.68e-3,
       "ac|propulsion|thermal|hx|n_wide_cold": 430., "ac|propulsion|thermal|hx|n_long_cold": 3., "ac|propulsion|thermal|hx|n_tall": 19.}
HXN = {"ac|propulsion|thermal|hx|n_wide_cold": (None, None, U(100, 600)), "ac|propulsion|thermal|hx|n_long_cold": (None, None, U(1, 6)), "ac|propulsion|thermal|hx|n_tall": (None, None, U(8, 40))}
HXI = {**{k: v for k, v in GEO.items() if not k.startswith("n_")}, **HXN, "material_k": ("W/m/K", None, U(50, 400)), "k_cold": ("W/m/K", None, U(.02, .04)), "mu_cold": ("kg/m/s", None, U(1.2e-5, 2.2e-5)), "cp_cold": ("J/kg/K", None, U(950, 1100)),
       "k_hot": ("W/m/K", None, U(.2, .7)), "mu_hot": ("kg/m/s", None, LU(5e-4, 4e-3)), "cp_hot": ("J/kg/K", None, U(2000, 4300)), "mdot_cold": ("kg/s", "n", LU(.2, 8)), "rho_cold": ("kg/m**3", "n", U(.4, 1.3)), "mdot_hot": ("kg/s", "n", LU(.03, 3)),
       "rho_hot": ("kg/m**3", "n", U(900, 1100)), "T_in_cold": ("K", "n", U(240, 320)), "T_in_hot": ("K", "n", U(300, 370))}


def _inv_hx(rep, i, o, g):
    q = g["heat_transfer"]
    rep.close("HXGroup:balance_cold", i["mdot_cold"] * i["cp_cold"] * (g["T_out_cold"] - i["T_in_cold"]), q, rtol=1e-9, atol=1e-6)
    rep.close("HXGroup:balance_hot", i["mdot_hot"] * i["cp_hot"] * (i["T_in_hot"] - g["T_out_hot"]), q, rtol=1e-9, atol=1e-6)
    rep.require("HXGroup:second_law", np.all(np.abs(q) <= np.minimum(i["mdot_cold"] * i["cp_cold"], i["mdot_hot"] * i["cp_hot"]) * np.abs(i["T_in_hot"] - i["T_in_cold"]) * (1 + 1e-9)), inputs=i)


Spec(P + "HXGroup", "C19", HXI, {"heat_transfer": "W", "T_out_cold": "K", "T_out_hot": "K", "delta_p_cold": "Pa", "delta_p_hot": "Pa", "component_weight": "kg", "frontal_area": "m**2", "NTU": None, "effectiveness": None, "UA_overall": "W/K"},
     ref=lambda i, o: {k: v for k, v in hx(i, o).items() if k in ("heat_transfer", "T_out_cold", "T_out_hot", "delta_p_cold", "delta_p_hot", "component_weight", "frontal_area", "NTU", "effectiveness", "UA_overall")},
     inv=lambda rep, i, o, g: None if False else _inv_hx(rep, i, o, g), D=HXD, group=True, atol={"heat_transfer": 1e-6, "T_out_cold": 1e-9})

# ------------------------------------------------------------------ ducts
R_, CP = 287.05, 1002.93
g_ = fl(1.25, 1.66)
GAM = lambda r: some(r, .5, gamma=g_)  # noqa: E731
MA = (None, "n", U(0, 1.5, edges=(0.0,)))
TT, PP = ("K", "n", U(200, 400)), ("Pa", "n", U(1e4, 1.5e5))


def is_(M, o):
    g = o.get("gamma", 1.4)
    return 1 + (g - 1) / 2 * M ** 2, g / (g - 1)


def duct_inc(i, o):
    q = i["fltcond|rho"] ** 2 * i["fltcond|Utrue"] ** 2 + 2 * i["fltcond|rho"] * i["delta_p_hex"]
    md = i["area_nozzle"] * np.sqrt(q / (1 + o.get("static_pressure_loss_factor", .15)))
    return {"mdot": md, "drag": md * (i["fltcond|Utrue"] - o.get("gross_thrust_factor", .98) * md / (i["area_nozzle"] * i["fltcond|rho"]))}


Spec(P + "ExplicitIncompressibleDuct", "C20", {"fltcond|Utrue": ("m/s", "n", U(20, 200)), "fltcond|rho": ("kg/m**3", "n", U(.3, 1.3)), "area_nozzle": ("m**2", "n", LU(.005, .3)), "delta_p_hex": ("Pa", "n", U(-50, 0, edges=(0.0,)))}, {"mdot": "kg/s", "drag": "N"},
     opts=lambda r: some(r, .6, static_pressure_loss_factor=fl(0, .5), gross_thrust_factor=fl(.8, 1)), ref=duct_inc, refscale=lambda k, w: w)
Spec(D + "TemperatureIsentropic", "C20", {"Tt": TT, "M": MA}, {"T": "K"}, opts=GAM, ref=lambda i, o: {"T": i["Tt"] / is_(i["M"], o)[0]})
Spec(D + "TotalTemperatureIsentropic", "C20", {"T": TT, "M": MA}, {"Tt": "K"}, opts=GAM, ref=lambda i, o: {"Tt": i["T"] * is_(i["M"], o)[0]})
Spec(D + "PressureIsentropic", "C20", {"pt": PP, "M": MA}, {"p": "Pa"}, opts=GAM, ref=lambda i, o: {"p": i["pt"] / is_(i["M"], o)[0] ** is_(i["M"], o)[1]})
Spec(D + "TotalPressureIsentropic", "C20", {"p": PP, "M": MA}, {"pt": "Pa"}, opts=GAM, ref=lambda i, o: {"pt": i["p"] * is_(i["M"], o)[0] ** is_(i["M"], o)[1]})
Spec(D + "DensityIdealGas", "C20", {"p": PP, "T": TT}, {"rho": "kg/m**3"}, opts=lambda r: some(r, .5, R=fl(200, 400)), ref=lambda i, o: {"rho": i["p"] / (o.get("R", R_) * i["T"])})
Spec(D + "SpeedOfSound", "C20", {"T": TT}, {"a": "m/s"}, opts=lambda r: some(r, .5, R=fl(200, 400), gamma=g_), ref=lambda i, o: {"a": (o.get("gamma", 1.4) * o.get("R", R_) * i["T"]) ** .5}, name="DuctSpeedOfSound")
Spec(D + "MachNumberfromSpeed", "C20", {"a": ("m/s", "n", U(250, 400)), "Utrue": ("m/s", "n", U(0, 300))}, {"M": None}, ref=lambda i, o: {"M": i["Utrue"] / i["a"]})


def heatadd(i, o):
    return {"Tt_out": i["Tt_in"] + i["heat_in"] / (i["cp"] * i["mdot"]),
            "pt_out": i["pt_in"] * i["pressure_recovery"] - .5 * i["mdot"] ** 2 / (i["rho"] * i["area"] ** 2) * i["dynamic_pressure_loss_factor"] + i["delta_p"]}


HAD = {"delta_p": 0.0, "dynamic_pressure_loss_factor": 0.0, "pressure_recovery": 1.0, "heat_in": 0.0}
HAI = {"Tt_in": TT, "pt_in": PP, "mdot": ("kg/s", "n", LU(.1, 10)), "area": ("m**2", None, LU(.02, .5)), "delta_p": ("Pa", "n", U(-2000, 500)), "dynamic_pressure_loss_factor": (None, None, U(0, 1)),
       "pressure_recovery": (None, "n", U(.8, 1)), "heat_in": ("W", "n", U(-1e4, 1e5)), "cp": ("J/kg/K", None, U(900, 1100))}
Spec(D + "HeatAdditionPressureLoss", "C20", {**HAI, "rho": ("kg/m**3", "n", U(.3, 1.3))}, {"Tt_out": "K", "pt_out": "Pa"}, ref=heatadd, D=HAD)
Spec(D + "MassFlow", "C20", {"a": ("m/s", "n", U(250, 400)), "area": ("m**2", "n", LU(.01, .5)), "rho": ("kg/m**3", "n", U(.3, 1.3)), "M": (None, "n", U(.01, 1))}, {"mdot": "kg/s"}, ref=lambda i, o: {"mdot": i["a"] * i["area"] * i["rho"] * i["M"]})
Spec(D + "MachNumberDuct", "C20", {"mdot": ("kg/s", "n", LU(.3, 5)), "a": ("m/s", "n", U(280, 400)), "area": ("m**2", None, U(.05, .3)), "rho": ("kg/m**3", "n", U(.6, 1.3))}, {"M": None},
     ref=lambda i, o: {"M": i["mdot"] / (i["a"] * i["area"] * i["rho"])}, solver=newton(ls=False), group=True, rtol=1e-7)
Spec(D + "DuctExitPressureRatioImplicit", "C20", {"p_exit": ("Pa", "n", U(2e4, 8e4)), "pt": ("Pa", "n", U(8.2e4, 1.5e5))}, {"nozzle_pressure_ratio": None}, ref=lambda i, o: {"nozzle_pressure_ratio": i["p_exit"] / i["pt"]}, solver=newton(), group=True, rtol=1e-7)


def exitM(pr, g=1.4):
    crit = (2 / (g + 1)) ** (g / (g - 1))
    return np.where(pr <= crit, 1.0, np.sqrt(np.maximum((pr ** ((1 - g) / g) - 1) * 2 / (g - 1), 0)))


Spec(D + "DuctExitMachNumber", "C20", {"nozzle_pressure_ratio": (None, "n", MIX(U(.55, .999), U(.1, .5)))}, {"M": None}, opts=GAM, ref=lambda i, o: {"M": exitM(i["nozzle_pressure_ratio"], o.get("gamma", 1.4))})


def netf(i, o):
    c = o.get("cfg", .98)
    return {"F_net": i["mdot"] * (c * i["mdot"] / (i["area_nozzle"] * i["rho_nozzle"]) - i["Utrue_inf"]) + c * i["area_nozzle"] * (i["p_nozzle"] - i["p_inf"])}


Spec(D + "NetForce", "C20", {"mdot": ("kg/s", "n", LU(.1, 10)), "Utrue_inf": ("m/s", "n", U(0, 250)), "p_inf": PP, "area_nozzle": ("m**2", "n", LU(.01, .3)), "p_nozzle": PP, "rho_nozzle": ("kg/m**3", "n", U(.3, 1.3))}, {"F_net": "N"},
     opts=lambda r: some(r, .6, cfg=fl(.8, 1)), ref=netf, refscale=lambda k, w: w)


def inlet(T, p, V, ram=1.0):
    M = V / np.sqrt(1.4 * R_ * T)
    s = 1 + .2 * M ** 2
    return {"M": M, "Tt": T * s, "pt": p * s ** 3.5 * ram, "a": np.sqrt(1.4 * R_ * T)}


Spec(D + "Inlet", "C20", {"T": TT, "p": PP, "Utrue": ("m/s", "n", U(0, 280)), "totalpressure.eta_ram": (None, "n", U(.8, 1))}, {"M": None, "Tt": "K", "pt": "Pa", "a": "m/s"},
     ref=lambda i, o: inlet(i["T"], i["p"], i["Utrue"], i["totalpressure.eta_ram"]), group=True, D={"totalpressure.eta_ram": 1.0}, name="Inlet")


def station_M(Tt, pt, mdot, A):
    """Subsonic Mach number at which mdot passes through area A with total state (Tt, pt); None when choked."""
    f = lambda M: pt * A * M * np.sqrt(1.4 / (R_ * Tt)) * (1 + .2 * M * M) ** -3 - mdot  # noqa: E731
    return brentq(f, 1e-9, 1.0, xtol=1e-15, rtol=1e-14) if f(1.0) > 0 else None


def station(Tt, pt, mdot, A):
    M = np.array([station_M(a, b, c, d) for a, b, c, d in np.broadcast(Tt, pt, mdot, A)], dtype=float)
    s = 1 + .2 * M ** 2
    T, p = Tt / s, pt / s ** 3.5
    return {"M": M, "T": T, "p": p, "rho": p / R_ / T, "a": np.sqrt(1.4 * R_ * T)}


def _station_fix(v, o, r):
    # keep the station comfortably subsonic
    v["mdot"] = v["mdot"] / 10 * .55 * v["pt_in"] * v["area"] * np.sqrt(1.4 / (R_ * v["Tt_in"])) * .5787
    v["delta_p"] = v["delta_p"] / 2000 * .02 * v["pt_in"]
    v["heat_in"] = v["heat_in"] / 1e5 * 40 * v["mdot"] * v["cp"]
    return v


def _station_ref(i, o):
    """Loss-free-of-dynamic-head stations have a closed-form total state; with losses the static density closes the loop."""
    Tt = i["Tt_in"] + i["heat_in"] / (i["cp"] * i["mdot"])
    k = i["dynamic_pressure_loss_factor"]
    pts = []
    for n in range(Tt.size):
        base = i["pt_in"][n] * i["pressure_recovery"][n] + i["delta_p"][n]

        def resid(pt):
            M = station_M(Tt[n], pt, i["mdot"][n], i["area"][0])
            if M is None:
                return None
            s = 1 + .2 * M * M
            rho = pt / s ** 3.5 / R_ / (Tt[n] / s)
            return base - .5 * i["mdot"][n] ** 2 / (rho * i["area"][0] ** 2) * k[0]
        pt = base
        for _ in range(300):
            q = resid(pt)
            if q is None:
                return None
            if abs(q - pt) < 1e-12 * base:
                break
            pt = q
        pts.append(pt)
    pt = np.array(pts)
    return {"Tt_out": Tt, "pt_out": pt, **station(Tt, pt, i["mdot"], i["area"])}


Spec(D + "DuctStation", "C20", HAI, {"Tt_out": "K", "pt_out": "Pa", "M": None, "T": "K", "p": "Pa", "rho": "kg/m**3", "a": "m/s"}, ref=lambda i, o: _station_ref(i, o) or {}, solver=newton(maxiter=60), group=True, rtol=1e-6, fixup=_station_fix, D=HAD, weight=.6)
Spec(D + "NozzlePressureLoss", "C20", {"pt_in": PP, "mdot": ("kg/s", "n", LU(.1, 3)), "rho": ("kg/m**3", "n", U(.3, 1.3)), "area": ("m**2", "n", LU(.02, .3)), "dynamic_pressure_loss_factor": (None, None, U(0, 1))}, {"pt": "Pa"}, D={"dynamic_pressure_loss_factor": 0.0},
     ref=lambda i, o: {"pt": i["pt_in"] - .5 * i["mdot"] ** 2 / (i["rho"] * i["area"] ** 2) * i["dynamic_pressure_loss_factor"]})


def nozzle(Tt, pt, p_exit, A):
    M = exitM(p_exit / pt)
    s = 1 + .2 * M ** 2
    T, p = Tt / s, pt / s ** 3.5
    rho, a = p / R_ / T, np.sqrt(1.4 * R_ * T)
    return {"M": M, "T": T, "p": p, "rho": rho, "a": a, "mdot_actual": M * a * A * rho}


Spec(D + "OutletNozzle", "C20", {"pt_in": ("Pa", "n", U(8e4, 1.5e5)), "Tt": TT, "p_exit": ("Pa", "n", U(4.5e4, 7.8e4)), "area": ("m**2", "n", LU(.01, .3)), "mdot": ("kg/s", "n", U(.1, 3))},
     {"M": None, "T": "K", "p": "Pa", "rho": "kg/m**3", "mdot_actual": "kg/s", "pt": "Pa"}, ref=lambda i, o: drop({**nozzle(i["Tt"], i["pt_in"], i["p_exit"], i["area"]), "pt": i["pt_in"]}, "a"), solver=newton(), group=True, rtol=1e-6)


def _flow(n, i, A2, A3, heat, dp, A_noz, hack):
    """Mass flow that the nozzle passes, by root finding on the whole duct."""
    T, p, V = i["T_inf"][n], i["p_inf"][n], i["Utrue"][n]
    t0 = inlet(T, p, V)
    cp = i["@cp"][0]

    def run(md):
        Tt = t0["Tt"] + i["@heat_in_1"][n] / (cp * md)
        pt = t0["pt"] * i["@pressure_recovery_1"][n] + i["@delta_p_1"][n]
        s1 = dict(Tt=Tt, pt=pt)
        Tt = Tt + i["@heat_in_2"][n] / (cp * md)
        pt = pt * i["@pressure_recovery_2"][n] + i["@delta_p_2"][n]
        s2 = station(Tt, pt, md, A2)
        if not np.isfinite(s2["M"]).all():
            return None
        q, d = heat(md, s2), dp(md, s2)
        Tt = Tt + q / (cp * md)
        pt = pt * i["@pressure_recovery_3"][n] + d
        if pt <= p + hack:
            return -md, None
        nz = nozzle(Tt, pt, p + hack, A_noz)
        return nz["mdot_actual"] - md, dict(nz=nz, s2=s2, q=q, Tt3=Tt, pt3=pt, s1=s1)
    return run


def duct_solve(i, o, A2, heat, dp, A_noz, hack):
    cfg = o.get("cfg", .98)
    out = {k: [] for k in ("mdot", "force.F_net", "nozzle.M", "sta3.Tt_out", "sta3.pt_out", "sta2.T", "sta2.M")}
    extra = []
    for n in range(i["T_inf"].size):
        run = _flow(n, i, A2, A2, lambda m, s: heat(n, m, s), lambda m, s: dp(n, m, s), A_noz[n], hack)
        f = lambda m: run(m)[0]  # noqa: E731
        lo, hi = .02, .05
        try:
            while f(hi) > 0:
                lo, hi = hi, hi * 1.3
                if hi > 14.5:
                    return None, None
        except (TypeError, ValueError):
            return None, None
        md = brentq(f, lo, hi, xtol=1e-14, rtol=1e-13)
        r = run(md)[1]
        if r is None:
            return None, None
        nz = r["nz"]
        F = md * (cfg * md / (A_noz[n] * nz["rho"]) - i["Utrue"][n]) + cfg * A_noz[n] * (nz["p"] - i["p_inf"][n])
        for k, v in (("mdot", md), ("force.F_net", F), ("nozzle.M", nz["M"]), ("sta3.Tt_out", r["Tt3"]), ("sta3.pt_out", r["pt3"]), ("sta2.T", r["s2"]["T"]), ("sta2.M", r["s2"]["M"])):
            out[k].append(np.ravel(v)[0])
        extra.append(r)
    return {k: np.array(v) for k, v in out.items()}, extra


DI = {"p_inf": ("Pa", "n", U(4e4, 1e5)), "T_inf": ("K", "n", U(230, 300)), "Utrue": ("m/s", "n", U(60, 220)), "@cp": ("J/kg/K", None, U(990, 1020)), "@area_1": ("inch**2", None, U(50, 90)), "@delta_p_1": ("Pa", "n", U(-100, 0)),
      "@heat_in_1": ("W", "n", U(0, 2000)), "@pressure_recovery_1": (None, "n", U(.97, 1)), "@delta_p_2": ("Pa", "n", U(-100, 0)), "@heat_in_2": ("W", "n", U(0, 2000)), "@pressure_recovery_2": (None, "n", U(.97, 1)),
      "@pressure_recovery_3": (None, "n", U(.97, 1)), "@convergence_hack": ("Pa", None, U(-60, -5))}
DD = {"@cp": CP, "@area_1": 60., "@delta_p_1": 0., "@heat_in_1": 0., "@pressure_recovery_1": 1., "@delta_p_2": 0., "@heat_in_2": 0., "@pressure_recovery_2": 1., "@pressure_recovery_3": 1.}
DU = {"mdot": "kg/s", "force.F_net": "N", "nozzle.M": None, "sta3.Tt_out": "K", "sta3.pt_out": "Pa", "sta2.T": "K", "sta2.M": None}
IN2 = .0254 ** 2


def _ext(i, o):
    r, _ = duct_solve(i, o, i["area_2/area_3"][0], lambda n, m, s: i["sta3.heat_in"][n], lambda n, m, s: i["sta3.delta_p"][n], i["area_nozzle_in"] * IN2, i["@convergence_hack"][0])
    return r or {}


def _duct_recovery(v, o, r):
    # recoveries must leave more total than ambient pressure
    q = .5 * v["p_inf"] / (R_ * v["T_inf"]) * v["Utrue"] ** 2 / v["p_inf"]
    for k in ("1", "2", "3"):
        v["@pressure_recovery_" + k] = 1 - (1 - v["@pressure_recovery_" + k]) / .03 * .1 * q
    for k in ("@delta_p_1", "@delta_p_2"):
        v[k] = v[k] / 100 * .05 * q * v["p_inf"]
    if "sta3.delta_p" in v:
        v["sta3.delta_p"] = v["sta3.delta_p"] / 500 * .3 * q * v["p_inf"]
    return v


Spec(P + "ImplicitCompressibleDuct_ExternalHX", "C20", {**DI, "area_nozzle_in": ("inch**2", "n", U(30, 80)), "area_2/area_3": ("m**2", None, U(.06, .2)), "sta3.delta_p": ("Pa", "n", U(-500, 0)), "sta3.heat_in": ("W", "n", U(0, 3e4))}, DU,
     opts=lambda r: some(r, .5, cfg=fl(.9, 1)), ref=_ext, D={**DD, "@convergence_hack": -40., "area_nozzle_in": 58.}, fixup=_duct_recovery, solver=newton(maxiter=60, ls=True), group=True, weight=.4, rtol=1e-6, atol={"force.F_net": 1e-4}, nnc=(1, 2, 3, 5), deriv=True)


def _impl(i, o):
    def hxi(n, m, s):
        one = lambda x: np.array([np.ravel(x)[0]])  # noqa: E731
        return hx({**HXD, **{k: i[k] for k in HXN if k in i}, "mdot_cold": np.array([m]), "rho_cold": one(s["rho"]), "T_in_cold": one(s["T"]), "mdot_hot": i["mdot_hot"][n:n + 1], "rho_hot": i["rho_hot"][n:n + 1], "T_in_hot": i["T_in_hot"][n:n + 1]}, {})
    G = hx({**HXD, **{k: i[k] for k in HXN if k in i}, "mdot_cold": np.ones(1), "rho_cold": np.ones(1), "T_in_cold": 280 * np.ones(1), "mdot_hot": np.ones(1), "rho_hot": np.ones(1), "T_in_hot": 300 * np.ones(1)}, {})
    r, ex = duct_solve(i, o, float(np.ravel(G["frontal_area"])[0]), lambda n, m, s: hxi(n, m, s)["heat_transfer"][0], lambda n, m, s: hxi(n, m, s)["delta_p_cold"][0], i["@area_nozzle"] * IN2, i["@convergence_hack"][0])
    if r is None:
        return {}
    q = np.array([np.ravel(e["q"])[0] for e in ex])
    r["T_out_hot"] = i["T_in_hot"] - q / (i["mdot_hot"] * HXD["cp_hot"])
    r["hx.heat_transfer"] = q
    return r


Spec(P + "ImplicitCompressibleDuct", "C20", {**DI, "mdot_hot": ("kg/s", "n", U(.05, .3)), "T_in_hot": ("K", "n", U(310, 370)), "rho_hot": ("kg/m**3", "n", U(950, 1050)), "ac|propulsion|thermal|hx|n_wide_cold": (None, None, U(300, 600)), "@area_nozzle": ("inch**2", "n", U(30, 70))},
     {**DU, "T_out_hot": "K", "hx.heat_transfer": "W"}, opts=lambda r: some(r, .5, cfg=fl(.9, 1)), ref=_impl, D={**DD, "@convergence_hack": -20., "@area_nozzle": 58., "ac|propulsion|thermal|hx|n_wide_cold": 430.}, fixup=_duct_recovery, solver=newton(maxiter=60, ls=True), group=True, weight=.3,
     rtol=1e-6, atol={"force.F_net": 1e-4, "T_out_hot": 1e-6}, nnc=(1, 2, 3))

# ------------------------------------------------------------------ liquid-cooled components
TC = ("K", "n", U(280, 350))
MD = ("kg/s", "n", LU(.02, 3))
DUR = ("s", None, U(10, 5000))
Spec(P + "PerfectHeatTransferComp", "C21", {"T_in": TC, "q": ("W", "n", U(-2e4, 5e4)), "mdot_coolant": MD}, {"T_out": "K", "T_average": "K"}, opts=lambda r: some(r, .5, specific_heat=fl(800, 4500)),
     ref=lambda i, o: (lambda d: {"T_out": i["T_in"] + d, "T_average": i["T_in"] + d / 2})(i["q"] / (o.get("specific_heat", 3801.) * i["mdot_coolant"])))
Spec(P + "ThermalComponentWithMass", "C21", {"q_in": ("W", "n", U(0, 5e4)), "q_out": ("W", "n", U(0, 5e4)), "mass": ("kg", None, LU(1, 2000))}, {"dTdt": "K/s"}, opts=lambda r: some(r, .5, specific_heat=fl(400, 2000)), refscale=lambda k, w: w,
     ref=lambda i, o: {"dTdt": (i["q_in"] - i["q_out"]) / (i["mass"] * o.get("specific_heat", 921.))}, rtol=1e-8)
Spec(P + "ConstantSurfaceTemperatureColdPlate_NTU", "C21", {"T_in": TC, "T_surface": ("K", "n", U(290, 420)), "channel_width": mm(.5, 3), "channel_height": mm(5, 40), "channel_length": ("m", None, U(.05, .5)), "n_parallel": (None, None, U(5, 100)), "mdot_coolant": MD},
     {"q": "W", "T_out": "K"}, opts=lambda r: some(r, .5, fluid_rho=fl(700, 1100), fluid_k=fl(.1, .7), nusselt=fl(3, 10), specific_heat=fl(2000, 4400)), ref=lambda i, o: drop(plate(i, i["T_surface"], o), "K"), atol={"q": 1e-7})


def plate(i, Ts, o, cp="specific_heat", mmu=1e-3):
    w, h, L = i["channel_width"] * mmu, i["channel_height"] * mmu, i["channel_length"]
    A, dh = 2 * (w + h) * L * i["n_parallel"], 2 * w * h / (w + h)
    C = i["mdot_coolant"] * o.get(cp, 3801.)
    K = C * -np.expm1(-A * o.get("nusselt", 7.54) * o.get("fluid_k", .405) / dh / C)
    return {"q": K * (Ts - i["T_in"]), "T_out": i["T_in"] + K * (Ts - i["T_in"]) / C, "K": K}


def lin_ode(T0, a, b, T):
    """State of dT/dt = a - b*T under the documented integration rule (linear, hence solved exactly)."""
    n = np.size(a)
    if n == 1:
        return np.full(1, T0)
    Q = np.column_stack([simpson_cum(e, T / (n - 1)) for e in np.eye(n)])
    return np.linalg.solve(np.eye(n) + Q * np.ravel(b), T0 + Q @ np.ravel(a))


def lcc(i, o):
    k = plate(i, 0.0, o, cp="specific_heat_coolant")["K"]
    if o.get("quasi_steady", False):
        T = i["T_in"] + i["q_in"] / k
    else:
        mc = i["mass"] * o.get("specific_heat_object", 921.)
        T = lin_ode(i["T_initial"][0], (i["q_in"] + k * i["T_in"]) / mc, k / mc * np.ones_like(i["q_in"]), i["duration"][0])
    p = plate(i, T, o, cp="specific_heat_coolant")
    return {"T": T, "T_out": p["T_out"]}


LCI = {"q_in": ("W", "n", U(0, 2e4, edges=(0.0,))), "T_in": TC, "mdot_coolant": MD, "channel_width": mm(.5, 3), "channel_height": mm(5, 40), "channel_length": ("m", None, U(.05, .5)), "n_parallel": (None, None, U(5, 100))}
LCO = lambda qs: (lambda r: {"quasi_steady": qs, **some(r, .5, specific_heat_object=fl(500, 1500), specific_heat_coolant=fl(2000, 4400))})  # noqa: E731
for _qs in (True, False):
    Spec(P + "LiquidCooledComp", "C21", {**LCI, **({} if _qs else {"mass": ("kg", None, U(50, 1000)), "T_initial": ("K", None, U(280, 330)), "duration": DUR})}, {"T": "K", "T_out": "K"}, opts=LCO(_qs), ref=lcc, rtol=1e-8, nnc=(1, 2, 3, 5, 7) if _qs else ODD, pointwise=_qs,
         solver=newton(), group=True, name="LiquidCooledComp" + ("_quasi" if _qs else ""), weight=.5)
Spec(P + "CoolantReservoir", "C21", {"T_in": TC, "mdot_coolant": MD, "mass": ("kg", None, U(2, 50)), "T_initial": ("K", None, U(280, 330)), "duration": DUR}, {"T_out": "K", "T_final": "K"},
     ref=lambda i, o: (lambda T: {"T_out": T, "T_final": T[-1:]})(lin_ode(i["T_initial"][0], i["mdot_coolant"] / i["mass"] * i["T_in"], i["mdot_coolant"] / i["mass"], i["duration"][0])), rtol=1e-8, nnc=ODD, pointwise=False, solver=newton(), group=True, weight=.5)
Spec("openconcept.thermal.thermal:CoolantReservoirRate", "C21", {"T_in": TC, "T_out": TC, "mdot_coolant": MD, "mass": ("kg", None, U(2, 50))}, {"dTdt": "K/s"}, ref=lambda i, o: {"dTdt": i["mdot_coolant"] / i["mass"] * (i["T_in"] - i["T_out"])}, refscale=lambda k, w: w)


def jacket(i, o, T=None):
    C = i["mdot_coolant"] * o.get("coolant_specific_heat", 3801.)
    k = C * -np.expm1(-o.get("case_cooling_coefficient", 1100.) / o.get("case_area_coefficient", 650000.) * i["power_rating"] / C)
    T = i["T"] if T is None else T
    q = k * (T - i["T_in"])
    mc = i["motor_weight"] * o.get("motor_specific_heat", 921.)
    return {"q": q, "T_out": i["T_in"] + q / C, "dTdt": (i["q_in"] - q) / mc, "k": k, "mc": mc}


MOT = {"q_in": ("W", "n", U(0, 3e4)), "T_in": TC, "mdot_coolant": MD, "power_rating": ("W", None, LU(2e4, 2e6)), "motor_weight": ("kg", None, U(10, 400))}
MOTO = dict(coolant_specific_heat=fl(2000, 4400), motor_specific_heat=fl(400, 1200), case_cooling_coefficient=fl(500, 2000))
drop = lambda d, *ks: {k: v for k, v in d.items() if k not in ks}  # noqa: E731
Spec(P + "MotorCoolingJacket", "C21", {**MOT, "T": ("K", "n", U(300, 420))}, {"q": "W", "T_out": "K", "dTdt": "K/s"}, opts=lambda r: some(r, .5, case_area_coefficient=fl(4e5, 9e5), **MOTO), ref=lambda i, o: drop(jacket(i, o), "k", "mc"), atol={"q": 1e-6},
     D={"q_in": 0., "T_in": 330., "T": 359.546, "mdot_coolant": 1., "power_rating": 2e5, "motor_weight": 100.}, refscale=lambda k, w: w)


def lcm(i, o):
    z = jacket(i, o, T=i["T_in"])
    T = i["T_in"] + i["q_in"] / z["k"] if o.get("quasi_steady") else lin_ode(i["T_initial"][0], (i["q_in"] + z["k"] * i["T_in"]) / z["mc"], z["k"] / z["mc"], i["duration"][0])
    r = jacket(i, o, T=T)
    return {"T": T, "T_out": r["T_out"]}


for _qs in (True, False):
    Spec(P + "LiquidCooledMotor", "C21", {**MOT, **({} if _qs else {"T_initial": ("K", None, U(280, 330)), "duration": DUR})}, {"T": "K", "T_out": "K"}, opts=(lambda q: lambda r: {"quasi_steady": q, **some(r, .5, **MOTO)})(_qs), ref=lcm, rtol=1e-8,
         nnc=(1, 2, 3, 5) if _qs else ODD, pointwise=_qs, solver=newton(), group=True, name="LiquidCooledMotor" + ("_quasi" if _qs else ""), weight=.5)


def bandolier(i, o, T=None):
    g = lambda k, d: o.get(k, d)  # noqa: E731
    nc = i["battery_weight"] * g("battery_weight_fraction", .65) / g("cell_mass", .07)
    npar = nc / (2 * i["n_cpb"])          # ribbons: two rows of n_cpb cells each
    mb, cp = i["mdot_coolant"] / npar, g("coolant_specific_heat", 3801.)
    h = g("nusselt", 7.54) * g("fluid_k", .405) / (2 * i["t_channel"])
    NTU = h * 2 * g("cell_height", .07) * i["n_cpb"] * g("cell_diameter", .021) / (mb * cp)
    Kc = mb * cp * -np.expm1(-NTU) / (2 * i["n_cpb"])
    Kr = 8 * pi * g("cell_height", .07) * g("cell_kr", .3)
    K = Kc * Kr / (Kc + Kr)              # series conductance bulk -> surface -> coolant, per cell
    T = i["T_battery"] if T is None else T
    q = K * (T - i["T_in"])
    Ts = i["T_in"] + q / Kc
    mc = g("cell_mass", .07) * g("cell_specific_heat", 875.)
    return {"q": q * nc, "T_surface": Ts, "T_core": 2 * T - Ts, "T_out": i["T_in"] + q * nc / (i["mdot_coolant"] * cp), "dTdt": (i["q_in"] / nc - q) / mc, "_K": K, "_mc": mc, "_nc": nc}


BAN = {"q_in": ("W", "n", U(0, 3e4)), "T_in": TC, "mdot_coolant": MD, "battery_weight": ("kg", None, U(100, 3000)), "n_cpb": (None, None, U(30, 150)), "t_channel": ("m", None, U(.0003, .002))}
BANO = dict(coolant_specific_heat=fl(2000, 4400), fluid_k=fl(.1, .7), nusselt=fl(3, 10), cell_kr=fl(.1, 1), cell_diameter=fl(.015, .03), cell_height=fl(.04, .1), cell_mass=fl(.03, .1), cell_specific_heat=fl(600, 1200), battery_weight_fraction=fl(.4, .9))
BAND = {"q_in": 0., "T_in": 300., "mdot_coolant": .2, "battery_weight": 478., "n_cpb": 82., "t_channel": .0005}
Spec(P + "BandolierCoolingSystem", "C21", {**BAN, "T_battery": ("K", "n", U(290, 400))}, {"q": "W", "T_surface": "K", "T_core": "K", "T_out": "K", "dTdt": "K/s"}, opts=lambda r: some(r, .5, **BANO), ref=lambda i, o: drop(bandolier(i, o), "_K", "_mc", "_nc"),
     atol={"q": 1e-6, "dTdt": 1e-9}, refscale=lambda k, w: w, D={**BAND, "T_battery": 300.})


def lcb(i, o):
    z = bandolier(i, o, T=i["T_in"])
    K, mc, nc = z["_K"], z["_mc"], z["_nc"]
    T = i["T_in"] + i["q_in"] / nc / K if o.get("quasi_steady") else lin_ode(i["T_initial"][0], (i["q_in"] / nc + K * i["T_in"]) / mc, K / mc, i["duration"][0])
    r = bandolier(i, o, T=T)
    return {"T": T, **{k: r[k] for k in ("T_out", "T_core", "T_surface")}}


for _qs in (True, False):
    Spec(P + "LiquidCooledBattery", "C21", {**BAN, **({} if _qs else {"T_initial": ("K", None, U(280, 330)), "duration": DUR})}, {"T": "K", "T_out": "K", "T_core": "K", "T_surface": "K"}, opts=(lambda q: lambda r: {"quasi_steady": q, **some(r, .5, **BANO)})(_qs), ref=lcb, rtol=1e-8,
         nnc=(1, 2, 3, 5) if _qs else ODD, pointwise=_qs, solver=newton(), group=True, name="LiquidCooledBattery" + ("_quasi" if _qs else ""), weight=.5 if _qs else .15)

# ------------------------------------------------------------------ hose, pump, manifold
RHOC = ("kg/m**3", "n", U(800, 1100))


def hose(i, o):
    d, L, md, rho = i["hose_diameter"], i["hose_length"], i["mdot_coolant"], i["rho_coolant"]
    Uv = md / (rho * pi * d ** 2 / 4)
    f = .3164 * (rho * Uv * d / i["mu_coolant"]) ** -.25
    t = i["hose_design_pressure"] * d / 2 / o.get("hose_operating_stress", 2.07e6)
    return {"delta_p": f * L / d * rho * Uv ** 2 / 2, "component_weight": pi * t * (d + t) * L * o.get("hose_density", 1356.3) + pi * d ** 2 / 4 * L * rho[0]}


Spec(P + "SimpleHose", "C22", {"hose_diameter": ("m", None, U(.01, .08)), "hose_length": ("m", None, U(.5, 20)), "hose_design_pressure": ("Pa", None, U(2e5, 3e6)), "mdot_coolant": MD, "rho_coolant": RHOC, "mu_coolant": ("kg/m/s", None, LU(3e-4, 5e-3))},
     {"delta_p": "Pa", "component_weight": "kg"}, opts=lambda r: some(r, .5, hose_operating_stress=fl(1e6, 5e6), hose_density=fl(900, 2000)), ref=hose, pointwise=False,
     D={"hose_diameter": .0254, "hose_length": 1., "hose_design_pressure": 1.03e6, "mu_coolant": 1.68e-3, "rho_coolant": 1020., "mdot_coolant": 1.})


def pump(i, o):
    e = i["mdot_coolant"] / i["rho_coolant"] * i["delta_p"] / o.get("efficiency", .35)
    return {"elec_load": e, "component_weight": o.get("weight_base", 0.) + o.get("weight_inc", 1 / 450) * i["power_rating"], "component_sizing_margin": e / i["power_rating"]}


Spec(P + "SimplePump", "C22", {"power_rating": ("W", None, LU(100, 1e5)), "mdot_coolant": MD, "delta_p": ("Pa", "n", U(1e3, 5e5)), "rho_coolant": RHOC}, {"elec_load": "W", "component_weight": "kg", "component_sizing_margin": None},
     opts=lambda r: some(r, .5, efficiency=fl(.2, .9), weight_base=fl(0, 20), weight_inc=fl(1e-4, 1e-2)), ref=pump)
Spec(P + "FlowSplit", "C22", {"mdot_in": MD, "mdot_split_fraction": (None, "n", U(0, 1, edges=(0., 1.)))}, {"mdot_out_A": "kg/s", "mdot_out_B": "kg/s"}, D={"mdot_split_fraction": .5},
     ref=lambda i, o: {"mdot_out_A": i["mdot_in"] * i["mdot_split_fraction"], "mdot_out_B": i["mdot_in"] - i["mdot_in"] * i["mdot_split_fraction"]}, atol=1e-14, dfix=lambda v: {**v, "mdot_split_fraction": np.clip(v["mdot_split_fraction"], .02, .98)})
Spec(P + "FlowCombine", "C22", {"mdot_in_A": MD, "mdot_in_B": MD, "T_in_A": TC, "T_in_B": TC}, {"mdot_out": "kg/s", "T_out": "K"},
     ref=lambda i, o: {"mdot_out": i["mdot_in_A"] + i["mdot_in_B"], "T_out": (i["mdot_in_A"] * i["T_in_A"] + i["mdot_in_B"] * i["T_in_B"]) / (i["mdot_in_A"] + i["mdot_in_B"])})

# ------------------------------------------------------------------ chiller
C = "openconcept.thermal.chiller:"
BYP = (None, "n", U(0, 1, edges=(0., 1.)))


def selector(i, o):
    b = i["bypass"]
    return {"T_out_cold": b * i["T_in_hot"] + (1 - b) * i["T_out_refrig_cold"], "T_out_hot": b * i["T_in_cold"] + (1 - b) * i["T_out_refrig_hot"], "elec_load": (1 - b) * i["power_rating"] / .95}


Spec(C + "LinearSelector", "C22", {"T_in_cold": TC, "T_in_hot": TC, "T_out_refrig_cold": TC, "T_out_refrig_hot": TC, "power_rating": ("W", None, LU(100, 5e4)), "bypass": BYP}, {"T_out_cold": "K", "T_out_hot": "K", "elec_load": "W"}, ref=selector,
     D={"T_in_cold": 300., "T_in_hot": 305., "T_out_refrig_cold": 290., "T_out_refrig_hot": 310., "bypass": 1.}, atol=1e-9)
Spec(C + "COPHeatPump", "C22", {"COP": (None, "n", U(.2, 10)), "power_rating": ("W", None, LU(100, 5e4))}, {"q_in_1": "W", "q_in_2": "W"}, ref=lambda i, o: {"q_in_1": -i["COP"] * i["power_rating"], "q_in_2": (i["COP"] + 1) * i["power_rating"]},
     inv=lambda rep, i, o, g: rep.close("COPHeatPump:first_law", g["q_in_1"] + g["q_in_2"], i["power_rating"], rtol=1e-9, scale=g["q_in_2"]))
Spec(C + "HeatPumpWeight", "C22", {"power_rating": ("W", None, LU(100, 5e4)), "specific_power": ("W/kg", None, U(50, 1000))}, {"component_weight": "kg"}, nn=None, ref=lambda i, o: {"component_weight": i["power_rating"] / i["specific_power"]}, D={"power_rating": 1000., "specific_power": 200.})


def cop(Tc, Th, eff):
    dT = Th - Tc
    x = np.where(np.abs(dT) < 1e-8, 1.0, dT)
    a = Tc * np.where(np.abs(dT) < 1e-8, 1.0, np.tanh(x) / x) * eff + (1 - np.tanh(dT + 3)) / 2 * 10
    al, b = -1.5, 10.
    w = 1 / (1 + np.exp(al * (b - a)))   # weight of a in the Boltzmann soft minimum of (a, 10)
    return w * a + (1 - w) * b


def _dT(v, o, r):
    # a heat pump that is switched off has both sides at the same temperature
    v["T_h"] = np.where(np.abs(v["T_h"] - v["T_c"]) < .5, v["T_c"], v["T_h"])
    if r.random() < .3:
        v["T_h"] = np.where(r.random(v["T_h"].shape) < .4, v["T_c"], v["T_h"])
    return v


Spec(C + "COPExplicit", "C22", {"T_c": ("K", "n", U(270, 330)), "T_h": ("K", "n", MIX(U(300, 420), U(260, 340))), "eff_factor": (None, None, U(.1, .9))}, {"COP": None}, ref=lambda i, o: {"COP": cop(i["T_c"], i["T_h"], i["eff_factor"])}, fixup=_dT, rtol=1e-8, atol=1e-9,
     D={"eff_factor": .4})


def chiller(i, o):
    """Both fluid streams at the heat pump outlet satisfy the energy balances at the COP evaluated there (fixed point)."""
    C_ = i["mdot_coolant"] * o.get("specific_heat", 3801.)
    n, Pw = C_.size, i["power_rating"][0]
    if "bypass" in i:
        b = i["bypass"]
    else:
        b = np.linspace(i["@control.bypass_start"][0], i["@control.bypass_end"][0], n) if n > 1 else i["@control.bypass_start"]
    K = np.zeros(n)
    for k in range(n):
        f = lambda x: cop(i["T_in_cold"][k] - x * Pw / C_[k], i["T_in_hot"][k] + (x + 1) * Pw / C_[k], i["eff_factor"][0]) - x  # noqa: E731
        xs = np.linspace(-2, 12, 561)
        fs = np.array([f(x) for x in xs])
        s = np.flatnonzero(np.sign(fs[:-1]) != np.sign(fs[1:]))
        if s.size != 1:
            return {}
        K[k] = brentq(f, xs[s[0]], xs[s[0] + 1], xtol=1e-14, rtol=1e-13)
    tc, th = i["T_in_cold"] - K * Pw / C_, i["T_in_hot"] + (K + 1) * Pw / C_
    return {"COP": K, "T_out_cold": b * i["T_in_hot"] + (1 - b) * tc, "T_out_hot": b * i["T_in_cold"] + (1 - b) * th, "elec_load": (1 - b) * Pw / .95, "component_weight": i["power_rating"] / i["specific_power"]}


HPI = {"T_in_hot": ("K", "n", U(320, 380)), "T_in_cold": ("K", "n", U(290, 315)), "mdot_coolant": ("kg/s", "n", LU(.1, 2)), "eff_factor": (None, None, U(.2, .6)), "power_rating": ("W", None, LU(100, 3e3)), "specific_power": ("W/kg", None, U(100, 400))}
Spec(P + "HeatPumpWithIntegratedCoolantLoop", "C22", lambda o: {**HPI, **({"bypass": BYP} if o.get("nonlinear_bypass_control") else {"@control.bypass_start": (None, None, U(0, 1, edges=(0., 1.))), "@control.bypass_end": (None, None, U(0, 1, edges=(0., 1.)))})},
     {"COP": None, "T_out_cold": "K", "T_out_hot": "K", "elec_load": "W", "component_weight": "kg"}, opts=lambda r: some(r, .5, specific_heat=fl(2000, 4400), nonlinear_bypass_control=lambda r: bool(r.random() < .7)), ref=chiller, atol={"elec_load": 1e-6}, rtol=1e-6,
     D=lambda o: {"eff_factor": .4, "specific_power": 200., **({} if o.get("nonlinear_bypass_control") else {"@control.bypass_start": 1., "@control.bypass_end": 1.})}, solver=newton(), group=True, weight=.5, nnc=(2, 3, 5, 7), pointwise=False)

# ------------------------------------------------------------------ heat pipes
HP = "openconcept.thermal.heat_pipe:"
_T = np.array([*range(-75, 55, 5), 60, 70, 80, 90, 100], float)
_RL = np.array("730.94 725.27 719.53 713.78 707.91 702 696.04 689.99 683.85 677.64 671.37 665.03 658.54 651.98 645.33 638.57 631.67 624.69 617.55 610.28 602.85 595.24 588.16 579.48 571.3 562.87 545.23 526.32 505.71 482.9 456.93".split(), float)
_RV = np.array("0.078241 0.11141 0.15552 0.21321 0.28596 0.38158 0.4994 0.64508 0.82318 1.0386 1.2969 1.6039 1.9659 2.3874 2.8827 3.4528 4.1086 4.8593 5.7153 6.6876 7.7882 9.031 10.431 12.006 13.775 15.761 20.5 26.5 34.1 43.9 56.8".split(), float)
_PV = np.array("7.93 10.92 15.61 21.90 30.16 40.87 54.54 71.77 93.19 119.6 151.6 190.2 236.3 290.8 354.8 429.4 515.7 614.9 728.3 857.1 1003 1166 1350 1554 1781 2032 2613 3312 4144 5123 6264".split(), float)


def ammonia(T):
    # tabulated saturation data, natural cubic spline through every table row
    return {k: CubicSpline(_T, y, bc_type="natural")(T) for k, y in (("rho_liquid", _RL), ("rho_vapor", _RV), ("vapor_pressure", _PV))}


TDEG = ("degC", "n", U(-10, 99))
Spec(HP + "AmmoniaProperties", "C22", {"temp": ("degC", "n", U(-74, 99, edges=tuple(_T[:-1])))}, {"rho_liquid": "kg/m**3", "rho_vapor": "kg/m**3", "vapor_pressure": "kPa"}, ref=lambda i, o: ammonia(i["temp"]), group=True, rtol=1e-8)


def hp_res(i, o):
    d, t, wt = i["inner_diam"], i["wall_thickness"], o.get("wick_thickness", 0.)
    R = 0
    for L in (o.get("length_evap", .25), o.get("length_cond", .25)):
        R = R + np.log(d / (d - 2 * wt)) / (2 * pi * L * o.get("wick_conduct", 4.)) + np.log((d + 2 * t) / d) / (2 * pi * L * o.get("wall_conduct", 196.))
    return {"thermal_resistance": R + (i["delta_T"] / i["q"] if o.get("vapor_resistance") else 0 * i["q"])}


RESO = dict(length_evap=fl(.1, .5), length_cond=fl(.1, .5), wall_conduct=fl(20, 400), wick_thickness=fl(0, .002), wick_conduct=fl(1, 20))
Spec(HP + "HeatPipeThermalResistance", "C22", {"inner_diam": ("m", None, U(.008, .04)), "wall_thickness": ("m", None, U(5e-4, 3e-3)), "q": ("W", "n", U(10, 3000)), "delta_T": ("K", "n", U(0, 3))}, {"thermal_resistance": "K/W"},
     opts=lambda r: some(r, .6, vapor_resistance=lambda r: bool(r.random() < .7), **RESO), ref=hp_res)


def hp_drop(i, o):
    d = i["inner_diam"]
    v = i["q"] / o.get("latent_heat", 1371.2e3) / (i["rho_vapor"] * pi * d ** 2 / 4)
    f = .3164 * (i["rho_vapor"] * v * d / (o.get("visc_base", 9e-6) + i["temp"] * o.get("visc_inc", 4e-8))) ** -.25
    return {"delta_T": 35.976 / (i["vapor_pressure"] / 1000) / 1000 * f * i["length"] / d * i["rho_vapor"] * v ** 2 / 2}


Spec(HP + "HeatPipeVaporTempDrop", "C22", {"q": ("W", "n", U(10, 3000)), "temp": TDEG, "rho_vapor": ("kg/m**3", "n", U(2, 50)), "vapor_pressure": ("Pa", "n", U(3e5, 6e6)), "inner_diam": ("m", None, U(.008, .04)), "length": ("m", None, U(.5, 15))}, {"delta_T": "K"},
     opts=lambda r: some(r, .4, latent_heat=fl(1e6, 2e6), visc_base=fl(5e-6, 2e-5), visc_inc=fl(1e-8, 1e-7)), ref=hp_drop)


def hp_w(i, o):
    t = i["design_pressure"] * i["inner_diam"] * o.get("stress_safety_factor", 4.) / o.get("yield_stress", 572.)
    return {"wall_thickness": t, "heat_pipe_weight": i["length"] * pi * i["inner_diam"] * t * o.get("rho_wall", 2810.)}


HPWO = dict(yield_stress=fl(200, 900), rho_wall=fl(1500, 8000), stress_safety_factor=fl(1.5, 6))
Spec(HP + "HeatPipeWeight", "C22", {"design_pressure": ("MPa", None, U(.3, 6)), "inner_diam": ("m", None, U(.008, .04)), "length": ("m", None, U(.5, 15))}, {"wall_thickness": "m", "heat_pipe_weight": "kg"}, nn=None, opts=lambda r: some(r, .6, **HPWO), ref=hp_w)


def qmax(i, o):
    d, T = i["inner_diam"], i["temp"]
    sig = o.get("surface_tension_base", .026) + o.get("surface_tension_incr", -2.3e-4) * T
    rl, rv, g = i["rho_liquid"], i["rho_vapor"], 9.80665
    Bo = d * np.sqrt(g * (rl - rv) / sig)
    K = (rl / rv) ** .14 * np.tanh(Bo ** .25) ** 2
    return {"q_max": K * pi * d ** 2 / 4 * o.get("latent_heat", 1371.2e3) * (g * np.cos(np.radians(o.get("theta", 0.))) * sig * (rl - rv)) ** .25 / (rl ** -.25 + rv ** -.25) ** 2}


Spec(HP + "QMaxAnalyticalPart", "C22", {"inner_diam": ("m", None, U(.008, .04)), "temp": ("degC", "n", U(-10, 90)), "rho_liquid": ("kg/m**3", "n", U(460, 730)), "rho_vapor": ("kg/m**3", "n", U(2, 50))}, {"q_max": "W"},
     opts=lambda r: some(r, .5, theta=fl(0, 80), latent_heat=fl(1e6, 2e6), surface_tension_base=fl(.024, .04), surface_tension_incr=fl(-2.3e-4, -1e-4)), ref=qmax)


def qmaxpipe(i, o):
    am, de = ammonia(i["temp"]), ammonia(i["design_temp"])
    w = hp_w({"design_pressure": de["vapor_pressure"] / 1000, "inner_diam": i["inner_diam"], "length": i["length"]}, o)
    return {**qmax({**am, "inner_diam": i["inner_diam"], "temp": i["temp"]}, {k: v for k, v in o.items() if k == "theta"}), **w}


Spec(HP + "QMaxHeatPipe", "C22", {"inner_diam": ("m", None, U(.008, .04)), "length": ("m", None, U(.5, 15)), "temp": ("degC", "n", U(-10, 90)), "design_temp": ("degC", None, U(20, 95))}, {"q_max": "W", "heat_pipe_weight": "kg", "wall_thickness": "m"},
     opts=lambda r: some(r, .6, theta=fl(0, 80), **HPWO), ref=qmaxpipe, group=True, rtol=1e-8)


def heatpipe(i, o):
    q = i["q"] / i["n_pipes"]
    m = qmaxpipe({"inner_diam": i["inner_diam"], "length": i["length"], "temp": i["T_evap"], "design_temp": i["T_design"]}, o)
    am = ammonia(i["T_evap"])
    dT = hp_drop({"q": q, "temp": i["T_evap"], "rho_vapor": am["rho_vapor"], "vapor_pressure": am["vapor_pressure"] * 1000, "inner_diam": i["inner_diam"], "length": i["length"]}, {})["delta_T"]
    R = hp_res({"inner_diam": i["inner_diam"], "wall_thickness": m["wall_thickness"], "q": q, "delta_T": dT}, {**o, "vapor_resistance": True})["thermal_resistance"]
    return {"q_max": m["q_max"] * i["n_pipes"], "weight": m["heat_pipe_weight"] * i["n_pipes"], "T_cond": i["T_evap"] - q * R}


Spec(P + "HeatPipe", "C22", {"q": ("W", "n", U(50, 5e3)), "n_pipes": (None, None, U(1, 40)), "inner_diam": ("m", None, U(.008, .04)), "length": ("m", None, U(.5, 15)), "T_design": ("degC", None, U(20, 95)), "T_evap": ("degC", "n", U(0, 90))},
     {"q_max": "W", "weight": "kg", "T_cond": "degC"}, opts=lambda r: some(r, .6, theta=fl(0, 80), q_max_warn=fl(.3, 1), **HPWO, **RESO), ref=heatpipe, group=True, rtol=1e-8, atol={"T_cond": 1e-6})
