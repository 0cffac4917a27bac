"""Atmosphere: reference model written from the 1976 standard atmosphere layer equations with a C1 cubic
(Hermite) blend over 10.5-11.5 km, as the module documents."""
import numpy as np
from ..spec import Spec, U, LU, MIX, CH

P = "openconcept.atmospherics:"
R, GAM, RHO0 = 287.058, 1.4, 1.225
HL, HU = 10500.0, 11500.0


def _hermite(h, f0, g0, f1, g1):
    L = HU - HL
    t = (h - HL) / L
    return ((1 + 2 * t) * (1 - t) ** 2 * f0 + t * (1 - t) ** 2 * L * g0 + t * t * (3 - 2 * t) * f1 + t * t * (t - 1) * L * g1)


def T_ref(h):
    lin = 288.16 - 0.0065 * h
    bl = _hermite(h, 288.16 - 0.0065 * HL, -0.0065, 216.65, 0.0)
    return np.where(h <= HL, lin, np.where(h > HU, 216.65, bl))


def p_ref(h):
    def trop(x):
        return 101325.0 * (1 - 0.0065 * x / 288.16) ** 5.2561

    def dtrop(x):
        return -101325.0 * 5.2561 * 0.0065 / 288.16 * (1 - 0.0065 * x / 288.16) ** 4.2561
    k = 9.81 / (288.0 * 216.65)

    def strat(x):
        return 22632.0 * np.exp(-k * (x - 11000.0))
    bl = _hermite(h, trop(HL), dtrop(HL), strat(HU), -k * strat(HU))
    return np.where(h <= HL, trop(np.minimum(h, HL)), np.where(h > HU, strat(h), bl))


# all layers, the blend, its seams and sea level
H = MIX(U(0, 10500, edges=(0.0, 10499.0)), U(10500, 11500, edges=(10500.0, 11000.0, 11499.9)), U(11500, 20000, edges=(11501.0, 20000.0)))

Spec(P + "TemperatureComp", "C12", {"fltcond|h": ("m", "n", H), "fltcond|TempIncrement": ("degC", "n", U(-40, 40, edges=(0.0,)))},
     {"fltcond|T": "K"}, ref=lambda i, o: {"fltcond|T": T_ref(i["fltcond|h"]) + i["fltcond|TempIncrement"]})
Spec(P + "PressureComp", "C12", {"fltcond|h": ("m", "n", H)}, {"fltcond|p": "Pa"}, ref=lambda i, o: {"fltcond|p": p_ref(i["fltcond|h"])})
Spec(P + "DensityComp", "C12", {"fltcond|p": ("Pa", "n", LU(2e3, 1.1e5)), "fltcond|T": ("K", "n", U(180, 330))}, {"fltcond|rho": "kg/m**3"},
     ref=lambda i, o: {"fltcond|rho": i["fltcond|p"] / (R * i["fltcond|T"])})
Spec(P + "SpeedOfSoundComp", "C12", {"fltcond|T": ("K", "n", U(180, 330))}, {"fltcond|a": "m/s"},
     ref=lambda i, o: {"fltcond|a": (GAM * R * i["fltcond|T"]) ** 0.5})
Spec(P + "MachNumberComp", "C12", {"fltcond|a": ("m/s", "n", U(250, 360)), "fltcond|Utrue": ("m/s", "n", U(0, 300, edges=(0.0,)))}, {"fltcond|M": None},
     ref=lambda i, o: {"fltcond|M": i["fltcond|Utrue"] / i["fltcond|a"]})
Spec(P + "DynamicPressureComp", "C12", {"fltcond|rho": ("kg/m**3", "n", U(.05, 1.4)), "fltcond|Utrue": ("m/s", "n", U(0, 300, edges=(0.0,)))}, {"fltcond|q": "Pa"},
     ref=lambda i, o: {"fltcond|q": i["fltcond|rho"] * i["fltcond|Utrue"] ** 2 / 2})
Spec(P + "TrueAirspeedComp", "C12", {"fltcond|rho": ("kg/m**3", "n", U(.05, 1.4)), "fltcond|Ueas": ("m/s", "n", U(0, 300, edges=(0.0,)))}, {"fltcond|Utrue": "m/s"},
     ref=lambda i, o: {"fltcond|Utrue": i["fltcond|Ueas"] / np.sqrt(i["fltcond|rho"] / RHO0)})
Spec(P + "EquivalentAirspeedComp", "C12", {"fltcond|rho": ("kg/m**3", "n", U(.05, 1.4)), "fltcond|Utrue": ("m/s", "n", U(0, 300, edges=(0.0,)))}, {"fltcond|Ueas": "m/s"},
     ref=lambda i, o: {"fltcond|Ueas": i["fltcond|Utrue"] * np.sqrt(i["fltcond|rho"] / RHO0)})


def _atm(i, o):
    h = i["fltcond|h"]
    T = T_ref(h) + i["fltcond|TempIncrement"]
    p = p_ref(h)
    rho = p / (R * T)
    a = np.sqrt(GAM * R * T)
    out = {"fltcond|T": T, "fltcond|p": p, "fltcond|rho": rho, "fltcond|a": a}
    if o.get("true_airspeed_in"):
        V = i["fltcond|Utrue"]
        out["fltcond|Ueas"] = V * np.sqrt(rho / RHO0)
    else:
        V = i["fltcond|Ueas"] * np.sqrt(RHO0 / rho)
        out["fltcond|Utrue"] = V
    out["fltcond|q"] = 0.5 * rho * V ** 2
    out["fltcond|M"] = V / a
    return out


Spec(P + "ComputeAtmosphericProperties", "C12",
     lambda o: {"fltcond|h": ("m", "n", H), "fltcond|TempIncrement": ("degC", "n", U(-40, 40, edges=(0.0,))),
                ("fltcond|Utrue" if o.get("true_airspeed_in") else "fltcond|Ueas"): ("m/s", "n", U(5, 300))},
     lambda o: {"fltcond|T": "K", "fltcond|p": "Pa", "fltcond|rho": "kg/m**3", "fltcond|a": "m/s", "fltcond|q": "Pa", "fltcond|M": None,
                ("fltcond|Ueas" if o.get("true_airspeed_in") else "fltcond|Utrue"): "m/s"},
     opts=lambda r: {"true_airspeed_in": True} if r.random() < .5 else {}, ref=_atm, group=True)
