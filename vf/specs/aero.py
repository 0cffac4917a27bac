"""Aerodynamic force, stall, maximum-lift and parasite-drag references (Raymer/Roskam/OpenVSP relations as documented)."""
import numpy as np
from ..spec import Spec, U, LU, MIX, CH

P = "openconcept.aerodynamics:"
g0 = 9.80665
pi = np.pi
S, AR = ("m**2", None, LU(5, 600)), (None, None, U(4, 20))


def fl(lo, hi):  # option value
    return lambda r: float(r.uniform(lo, hi))


Spec(P + "PolarDrag", "C13",
     lambda o: {"fltcond|CL": (None, "n", U(-1, 2.5, edges=(0.0,))), "fltcond|q": ("Pa", "n", U(0, 3e4, edges=(0.0,))), "ac|geom|wing|S_ref": S, "ac|geom|wing|AR": AR,
                "CD0": (None, "n" if o.get("vec_CD0") else None, U(.005, .1)), "e": (None, None, U(.5, 1.0))},
     {"drag": "N"}, opts=lambda r: {"vec_CD0": bool(r.random() < .5)},
     ref=lambda i, o: {"drag": i["fltcond|q"] * i["ac|geom|wing|S_ref"] * (i["CD0"] + i["fltcond|CL"] ** 2 / (pi * i["e"] * i["ac|geom|wing|AR"]))})
Spec(P + "Lift", "C13", {"fltcond|CL": (None, "n", U(-1, 2.5)), "fltcond|q": ("Pa", "n", U(0, 3e4)), "ac|geom|wing|S_ref": S}, {"lift": "N"},
     ref=lambda i, o: {"lift": i["fltcond|q"] * i["ac|geom|wing|S_ref"] * i["fltcond|CL"]})
Spec(P + "StallSpeed", "C13", {"weight": ("kg", None, LU(300, 4e5)), "ac|geom|wing|S_ref": S, "CLmax": (None, None, U(.8, 3.5))}, {"Vstall_eas": "m/s"}, nn=None,
     # the speed at which q S CLmax = W at sea-level density
     ref=lambda i, o: {"Vstall_eas": (i["weight"] * g0 / (0.5 * 1.225 * i["ac|geom|wing|S_ref"] * i["CLmax"])) ** 0.5})
Spec(P + "CleanCLmax", "C13", {"ac|aero|airfoil_Cl_max": (None, None, U(.8, 2.5)), "ac|geom|wing|c4sweep": ("deg", None, U(0, 45, edges=(0.0,)))}, {"CL_max_clean": None}, nn=None,
     opts=lambda r: {"fudge_factor": r.uniform(.5, 1.5)} if r.random() < .7 else {},
     ref=lambda i, o: {"CL_max_clean": o.get("fudge_factor", 1.0) * 0.9 * i["ac|aero|airfoil_Cl_max"] * np.cos(np.radians(i["ac|geom|wing|c4sweep"]))})


def _flapclmax(i, o):
    d, tc, c = i["flap_extension"], i["ac|geom|wing|toverc"], np.cos(np.radians(i["ac|geom|wing|c4sweep"]))
    base = np.polyval([-3430.0, 1120.0, -77.9, 2.33, 1.0], tc)
    k2 = np.polyval([-2.04e-4, 0.0234, 0.4], d)
    dcl = base * 4 * o.get("flap_chord_frac", .2) * k2 * np.polyval([-0.389, 1.36, 0.0], k2)
    flaps = dcl * o.get("wing_area_flapped_frac", .9) * (1 - .08 * c ** 2) * c ** .75
    slats = 7.11 * o.get("slat_chord_frac", .1) * o.get("slat_span_frac", .8) ** 2 * c ** 2
    return {"CL_max_flap": o.get("fudge_factor", 1.0) * (i["CL_max_clean"] + flaps + slats)}


def some(r, p, **kw):
    """Each option given with probability p, otherwise left at its default."""
    return {k: (v(r) if callable(v) else v) for k, v in kw.items() if r.random() < p}


Spec(P + "FlapCLmax", "C13", {"flap_extension": ("deg", None, U(0, 45, edges=(0.0,))), "ac|geom|wing|c4sweep": ("deg", None, U(0, 45, edges=(0.0,))), "CL_max_clean": (None, None, U(.8, 2)),
                              "ac|geom|wing|toverc": (None, None, U(.06, .2))}, {"CL_max_flap": None}, nn=None, ref=_flapclmax,
     opts=lambda r: some(r, .6, flap_chord_frac=fl(.05, .4), wing_area_flapped_frac=fl(0, 1), slat_chord_frac=fl(0, .3), slat_span_frac=fl(0, 1), fudge_factor=fl(.5, 1.5)))

J = "openconcept.aerodynamics.drag_jet_transport:"


def ff_fus(L, h, Q=1.0):
    f = L / h
    return Q * (1 + 2.2 / f + 3.8 / f ** 3)


def ff_wing(tc, Q=1.0):
    return Q * (1 + 2.7 * tc + 100 * tc ** 4)


def cd_flap(delta, sweep_deg, o, area_default=.9):
    c = o.get("flap_chord_frac", .2)
    k = 5.75e-4 * c ** 2 - 7.45e-5 * c + 1.23e-5
    return k * delta ** 2 * np.cos(np.radians(sweep_deg)) * o.get("wing_area_flapped_frac", area_default) * o.get("Q_flap", 1.25)


SUTH = 100.4  # constant used by the library (see DESIGN.md, note on viscosity)


def skin_friction(L, V, rho, T, lam):
    mu = 1.458e-6 * T ** 1.5 / (T + SUTH)
    Re = rho * V * L / mu

    def turb(re):
        return 0.523 / np.log(0.06 * re) ** 2
    cf = turb(Re)
    if lam > 0:
        rl = Re * lam
        cf = cf + lam * (1.32824 / np.sqrt(rl) - turb(rl))
    return cf


VEL, RHO, T = ("m/s", "n", U(30, 280)), ("kg/m**3", "n", U(.15, 1.3)), ("K", "n", U(200, 320))
Spec(J + "FuselageFormFactor_JetTransport", "C14", {"ac|geom|fuselage|length": ("m", None, U(10, 80)), "ac|geom|fuselage|height": ("m", None, U(1.5, 8))}, {"FF_fuselage": None}, nn=None,
     opts=lambda r: some(r, .6, Q_fuselage=fl(.8, 1.5)), ref=lambda i, o: {"FF_fuselage": ff_fus(i["ac|geom|fuselage|length"], i["ac|geom|fuselage|height"], o.get("Q_fuselage", 1.0))})
Spec(J + "WingFormFactor_JetTransport", "C14", {"toverc": (None, None, U(.05, .25))}, {"FF_wing": None}, nn=None, opts=lambda r: some(r, .6, Q=fl(.8, 1.5)),
     ref=lambda i, o: {"FF_wing": ff_wing(i["toverc"], o.get("Q", 1.0))})
Spec(J + "FlapDrag_JetTransport", "C14", {"flap_extension": ("deg", None, U(0, 50, edges=(0.0,))), "ac|geom|wing|c4sweep": ("deg", None, U(0, 45, edges=(0.0,)))}, {"CD_flap": None}, nn=None,
     opts=lambda r: some(r, .6, flap_chord_frac=fl(.05, .45), Q_flap=fl(.8, 1.5), wing_area_flapped_frac=fl(0, 1)),
     ref=lambda i, o: {"CD_flap": cd_flap(i["flap_extension"], i["ac|geom|wing|c4sweep"], o)})
Spec(J + "SkinFrictionCoefficient_JetTransport", "C14", {"L": ("m", None, LU(.5, 80)), "fltcond|Utrue": VEL, "fltcond|rho": RHO, "fltcond|T": T}, {"Cf": None},
     opts=lambda r: some(r, .7, laminar_frac=lambda r: float(r.choice([0.0, .05, .3, 1.0, r.uniform(0.01, 1)]))),
     ref=lambda i, o: {"Cf": skin_friction(i["L"], i["fltcond|Utrue"], i["fltcond|rho"], i["fltcond|T"], o.get("laminar_frac", 0.0))})


def mac_trap(S_, AR_, tap):
    b = np.sqrt(S_ * AR_)
    cr = 2 * S_ / (b * (1 + tap))
    return 2 / 3 * cr * (1 + tap + tap ** 2) / (1 + tap)


def _jet_inputs(o):
    I = {"fltcond|Utrue": VEL, "fltcond|rho": RHO, "fltcond|T": T, "ac|geom|fuselage|length": ("m", None, U(15, 80)), "ac|geom|fuselage|height": ("m", None, U(2, 8)),
         "ac|geom|fuselage|S_wet": ("m**2", None, U(100, 1500)), "ac|geom|wing|S_ref": ("m**2", None, U(50, 500)), "ac|geom|nacelle|length": ("m", None, U(1, 6)),
         "ac|geom|nacelle|S_wet": ("m**2", None, U(5, 60)), "ac|propulsion|num_engines": (None, None, CH(1, 2, 3, 4))}
    for s in ["hstab", "vstab"] + (["wing"] if o.get("include_wing", True) else []):
        if s != "wing":
            I["ac|geom|%s|S_ref" % s] = ("m**2", None, U(5, 90))
        I["ac|geom|%s|AR" % s] = (None, None, U(1, 12))
        I["ac|geom|%s|taper" % s] = (None, None, U(.1, 1.0))
        I["ac|geom|%s|toverc" % s] = (None, None, U(.06, .2))
    if o.get("configuration", "clean") == "takeoff":
        I["ac|geom|wing|c4sweep"] = ("deg", None, U(0, 40))
        I["ac|aero|takeoff_flap_deg"] = ("deg", None, U(0, 40))
    return I


def _jet_cd0(i, o):
    V, rho, T_ = i["fltcond|Utrue"], i["fltcond|rho"], i["fltcond|T"]
    Sw = i["ac|geom|wing|S_ref"]
    cd = i["ac|geom|fuselage|S_wet"] / Sw * ff_fus(i["ac|geom|fuselage|length"], i["ac|geom|fuselage|height"], o.get("Q_fuselage", 1.0)) * \
        skin_friction(i["ac|geom|fuselage|length"], V, rho, T_, o.get("fuselage_laminar_frac", 0.0))
    for s in ["hstab", "vstab"] + (["wing"] if o.get("include_wing", True) else []):
        A = i["ac|geom|%s|S_ref" % s]
        Q = o.get("Q_wing", 1.0) if s == "wing" else o.get("Q_tail", 1.05)
        L = mac_trap(A, i["ac|geom|%s|AR" % s], i["ac|geom|%s|taper" % s])
        cd = cd + 2 * A / Sw * ff_wing(i["ac|geom|%s|toverc" % s], Q) * skin_friction(L, V, rho, T_, o.get(s + "_laminar_frac", .15))
    cd = cd + i["ac|propulsion|num_engines"] * i["ac|geom|nacelle|S_wet"] / Sw * o.get("FF_nacelle", 1.5) * \
        skin_friction(i["ac|geom|nacelle|length"], V, rho, T_, o.get("nacelle_laminar_frac", 0.0))
    if o.get("configuration", "clean") == "takeoff":
        cd = cd + 0.02 + cd_flap(i["ac|aero|takeoff_flap_deg"], i["ac|geom|wing|c4sweep"], o)
    return {"CD0": cd * o.get("drag_fudge_factor", 1.0)}


Spec(P + "ParasiteDragCoefficient_JetTransport", "C14", _jet_inputs, {"CD0": None}, ref=_jet_cd0, group=True, weight=2,
     opts=lambda r: some(r, .6, include_wing=lambda r: bool(r.random() < .5), configuration=lambda r: str(r.choice(["clean", "takeoff"])), drag_fudge_factor=fl(.7, 1.5), FF_nacelle=fl(1, 2),
                         Q_fuselage=fl(.8, 1.4), Q_tail=fl(.8, 1.4), Q_wing=fl(.8, 1.4), flap_chord_frac=fl(.05, .4), Q_flap=fl(.8, 1.5), wing_area_flapped_frac=fl(0, 1),
                         fuselage_laminar_frac=fl(0, .6), hstab_laminar_frac=fl(0, .6), vstab_laminar_frac=fl(0, .6), wing_laminar_frac=fl(0, .6), nacelle_laminar_frac=fl(0, .6)))


def _bwb_inputs(o):
    I = {"fltcond|Utrue": VEL, "fltcond|rho": RHO, "fltcond|T": T, "ac|geom|wing|S_ref": ("m**2", None, U(50, 900)), "ac|geom|nacelle|length": ("m", None, U(1, 6)),
         "ac|geom|nacelle|S_wet": ("m**2", None, U(5, 60)), "ac|propulsion|num_engines": (None, None, CH(1, 2, 3, 4))}
    if o.get("configuration", "clean") == "takeoff":
        I["ac|geom|wing|c4sweep"] = ("deg", None, U(0, 40))
        I["ac|aero|takeoff_flap_deg"] = ("deg", None, U(0, 40))
    return I


def _bwb_cd0(i, o):
    cd = i["ac|propulsion|num_engines"] * i["ac|geom|nacelle|S_wet"] / i["ac|geom|wing|S_ref"] * o.get("FF_nacelle", 1.5) * \
        skin_friction(i["ac|geom|nacelle|length"], i["fltcond|Utrue"], i["fltcond|rho"], i["fltcond|T"], o.get("nacelle_laminar_frac", 0.0))
    if o.get("configuration", "clean") == "takeoff":
        cd = cd + 0.01 + cd_flap(i["ac|aero|takeoff_flap_deg"], i["ac|geom|wing|c4sweep"], o, area_default=0.0)
    return {"CD0": cd * o.get("drag_fudge_factor", 1.0)}


Spec(P + "ParasiteDragCoefficient_BWB", "C14", _bwb_inputs, {"CD0": None}, ref=_bwb_cd0, group=True,
     opts=lambda r: some(r, .6, configuration=lambda r: str(r.choice(["clean", "takeoff"])), drag_fudge_factor=fl(.7, 1.5), FF_nacelle=fl(1, 2), flap_chord_frac=fl(.05, .4),
                         Q_flap=fl(.8, 1.5), wing_area_flapped_frac=fl(0, 1), nacelle_laminar_frac=fl(0, .6)))
