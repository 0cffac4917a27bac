"""Mission building blocks: kinematics (C06) and takeoff (C08) components, from the textbook relations."""
import numpy as np
import openmdao.api as om
from ..spec import Spec, U, LU, MIX, CH, newton, pick
from .aero import some

P = "openconcept.mission:"
G = 9.80665


def fl(lo, hi):
    return lambda r: float(r.uniform(lo, hi))


# ---- speeds: vertical speed never beyond the airspeed in the documented use; edge regime included as its own spec
def _gs_fix(v, o, rng):
    u = np.maximum(v["fltcond|Utrue"], 1.0)
    v["fltcond|Utrue"] = u
    v["fltcond|vs"] = np.clip(v["fltcond|vs"], -.9, .9) * u
    return v


Spec(P + "Groundspeeds", "C06", {"fltcond|Utrue": ("m/s", "n", MIX(U(1, 20), U(20, 300))), "fltcond|vs": ("m/s", "n", MIX(U(-.1, .1), U(-.9, .9), CH(0.0)))},
     {"fltcond|groundspeed": "m/s", "fltcond|cosgamma": None, "fltcond|singamma": None}, fixup=_gs_fix,
     ref=lambda i, o: (lambda u, v: {"fltcond|groundspeed": np.sqrt(u ** 2 - v ** 2), "fltcond|singamma": v / u,
                                     "fltcond|cosgamma": np.cos(np.arcsin(v / u))})(i["fltcond|Utrue"], i["fltcond|vs"]))
# climbing faster than it flies: a solver iterate only; the outputs stay finite and the ground speed positive
Spec(P + "Groundspeeds", "C06", {"fltcond|Utrue": ("m/s", "n", U(5, 50)), "fltcond|vs": ("m/s", "n", U(60, 90))},
     {"fltcond|groundspeed": "m/s", "fltcond|cosgamma": None, "fltcond|singamma": None}, name="Groundspeeds_beyond_vertical", weight=.3,
     ref=lambda i, o: {},
     inv=lambda rep, i, o, g: rep.require("Groundspeeds_beyond_vertical:finite", all(np.all(np.isfinite(x)) for x in g.values())
                                          and np.all(g["fltcond|groundspeed"] > 0) and np.all(g["fltcond|groundspeed"] < 1), outputs=g, inputs=i))

# one node of the vector beyond vertical must not touch the others
Spec(P + "Groundspeeds", "C06", {"fltcond|Utrue": ("m/s", "n", U(30, 50)), "fltcond|vs": ("m/s", "n", MIX(U(-25, 25), U(60, 90)))},
     {"fltcond|groundspeed": "m/s", "fltcond|cosgamma": None, "fltcond|singamma": None}, name="Groundspeeds_mixed", weight=.6,
     ref=lambda i, o: {},
     inv=lambda rep, i, o, g: (lambda u, v, ok: (
         rep.close("Groundspeeds_mixed:fltcond|groundspeed", g["fltcond|groundspeed"][ok], np.sqrt(u[ok] ** 2 - v[ok] ** 2), rtol=1e-12, inputs=i),
         rep.close("Groundspeeds_mixed:fltcond|singamma", g["fltcond|singamma"][ok], (v / u)[ok], rtol=1e-12, inputs=i),
         rep.require("Groundspeeds_mixed:finite", np.all(np.isfinite(g["fltcond|groundspeed"])) and np.all(g["fltcond|groundspeed"] > 0), inputs=i)))(
             i["fltcond|Utrue"], i["fltcond|vs"], np.abs(i["fltcond|vs"]) < i["fltcond|Utrue"]))

ACC = {"weight": ("kg", "n", LU(500, 3e5)), "drag": ("N", "n", U(0, 2e4)), "lift": ("N", "n", U(0, 1)), "thrust": ("N", "n", U(0, 1e5)),
       "fltcond|singamma": (None, "n", U(-.4, .4, edges=(0.0,)))}


def _lift_fix(lo, hi):
    def f(v, o, rng):
        v["lift"] = v["weight"] * G * rng.uniform(lo, hi, v["lift"].shape)
        v["thrust"] = v["weight"] * G * rng.uniform(0, .5, v["lift"].shape)
        v["drag"] = v["weight"] * G * rng.uniform(0, .3, v["lift"].shape)
        return v
    return f


Spec(P + "HorizontalAcceleration", "C06", dict(ACC, braking=(None, "n", U(0, .6, edges=(0.0, .03, .4)))), {"accel_horiz": "m/s**2"}, fixup=_lift_fix(0, 1.5),
     ref=lambda i, o: {"accel_horiz": (i["thrust"] - i["drag"] - i["braking"] * np.maximum(i["weight"] * G - i["lift"], 0)
                                       - i["weight"] * G * i["fltcond|singamma"]) / i["weight"]}, rtol=1e-9, atol=1e-10)
VA = dict(ACC)
VA["fltcond|cosgamma"] = (None, "n", U(.9, 1))


def _va(i, o):
    a = (i["lift"] * i["fltcond|cosgamma"] + (i["thrust"] - i["drag"]) * i["fltcond|singamma"]) / i["weight"] - G
    return {"accel_vert": np.clip(a, -G, 2.5 * G)}


Spec(P + "VerticalAcceleration", "C06", VA, {"accel_vert": "m/s**2"}, fixup=_lift_fix(.3, 3.0), ref=_va, atol=1e-9)


def _va_clip(v, o, rng):
    v = _lift_fix(.3, 3.0)(v, o, rng)
    k = rng.random(v["lift"].shape) < .5
    v["lift"] = np.where(k, 5.0, -1.0) * v["weight"] * G
    return v


Spec(P + "VerticalAcceleration", "C06", VA, {"accel_vert": "m/s**2"}, fixup=_va_clip, ref=_va, atol=1e-9, name="VerticalAcceleration_limited", weight=.3)
Spec(P + "SteadyFlightCL", "C06", {"weight": ("kg", "n", LU(500, 3e5)), "fltcond|q": ("Pa", "n", LU(100, 3e4)), "ac|geom|wing|S_ref": ("m**2", None, LU(5, 800)),
                                  "fltcond|cosgamma": (None, "n", U(.5, 1, edges=(1.0,)))}, {"fltcond|CL": None},
     D={"fltcond|cosgamma": 1.0},
     ref=lambda i, o: {"fltcond|CL": i["weight"] * G * i["fltcond|cosgamma"] / (i["fltcond|q"] * i["ac|geom|wing|S_ref"])})

# ---- takeoff
Spec(P + "ClimbAngleComp", "C08", {"drag": ("N", "n", U(0, 1)), "weight": ("kg", "n", LU(500, 3e5)), "thrust": ("N", "n", U(0, 1))}, {"gamma": "rad"},
     fixup=lambda v, o, r: dict(v, thrust=v["thrust"] * v["weight"] * G * .9, drag=v["drag"] * v["weight"] * G * .3),
     ref=lambda i, o: {"gamma": np.arcsin((i["thrust"] - i["drag"]) / (i["weight"] * G))})
Spec(P + "FlipVectorComp", "C08", {"vec_in": ("m/s", "n", U(-100, 100))}, {"vec_out": "m/s"}, opts=lambda r: {"negative": bool(r.random() < .5), "units": "m/s"}, pointwise=False,
     ref=lambda i, o: {"vec_out": (-1 if o["negative"] else 1) * i["vec_in"][::-1]})


def _trans(i, o):
    R = i["fltcond|Utrue"] ** 2 / (o.get("load_factor", 1.2) - 1) / G
    g, ho = i["gamma"], o.get("h_obstacle", 10.66)
    h = R * (1 - np.cos(g))
    if h > ho:   # obstacle cleared on the arc
        a = np.arccos(1 - ho / R)
        s, h = R * np.sin(a), np.array([ho])
    else:
        s = R * np.sin(g)
    return {"s_transition": s, "h_transition": h, "t_transition": s / i["fltcond|Utrue"]}


Spec(P + "TakeoffTransition", "C08", {"fltcond|Utrue": ("m/s", None, U(20, 110)), "gamma": ("rad", None, MIX(U(.01, .08), U(.05, .5)))},
     {"s_transition": "m", "h_transition": "m", "t_transition": "s"}, nn=None, opts=lambda r: some(r, 0.4, h_obstacle=fl(5, 20), load_factor=fl(1.05, 1.5)), ref=_trans, rtol=1e-8)
Spec(P + "TakeoffClimb", "C08", {"fltcond|Utrue": ("m/s", None, U(20, 110)), "gamma": ("rad", None, U(.005, .5)), "h_transition": ("m", None, U(0, 10.66))},
     {"s_climb": "m", "t_climb": "s"}, nn=None, opts=lambda r: some(r, 0.4, h_obstacle=fl(5, 20)),
     ref=lambda i, o: (lambda s: {"s_climb": s, "t_climb": s / i["fltcond|Utrue"]})((o.get("h_obstacle", 10.66) - i["h_transition"]) / np.tan(i["gamma"])))


# ---- balanced field: the decision speed solver inside a little takeoff with distances that rise / fall with v1
def _bfl_build(o):
    class BFL(om.Group):
        def setup(self):
            self.add_subsystem("bfl", pick(P + "BFLImplicitSolve")(), promotes=["*"])
            self.add_subsystem("go", om.ExecComp("distance_continue=a0-a1*v+a2*v**2", distance_continue={"units": "m"}, v={"units": "m/s"}),
                               promotes=[("v", "takeoff|v1"), "distance_continue", "a0", "a1", "a2"])
            self.add_subsystem("stop", om.ExecComp("distance_abort=b0*v+b2*v**2", distance_abort={"units": "m"}, v={"units": "m/s"}),
                               promotes=[("v", "takeoff|v1"), "distance_abort", "b0", "b2"])
            newton(60, solve_subsystems=False, ls=True)(self)
    return BFL()


def _bfl(rep, i, o, g):
    v1, vr = g["takeoff|v1"][0], i["takeoff|vr"][0]
    dc, da = g["distance_continue"][0], g["distance_abort"][0]
    bal = abs(dc - da) <= 1e-4 * max(dc, da)
    k = "BFLImplicitSolve:"
    rep.event("bfl_balanced" if bal else "bfl_v1_at_vr")
    if bal:
        rep.require(k + "v1_not_beyond_vr", v1 <= vr * (1 + 1e-6), v1=v1, vr=vr, inputs=i)
    else:
        rep.require(k + "balanced_or_v1_equals_vr", abs(v1 - vr) <= 1e-4 * vr, v1=v1, vr=vr, go=dc, stop=da, inputs=i)
        rep.require(k + "v1_equals_vr_only_when_stop_is_shorter", da <= dc * (1 + 1e-6), v1=v1, vr=vr, go=dc, stop=da, inputs=i)


def _bfl_speed(i):
    v = [x.real for x in np.roots([i["a2"][0] - i["b2"][0], -i["a1"][0] - i["b0"][0], i["a0"][0]]) if abs(x.imag) < 1e-12 and x.real > 0]
    return min(v) if v else 0.0


def _bfl_sure(i, o):
    """the balanced speed lies below rotation by more than the solve's tolerance on it (0.1 m/s): nothing stands in the way of finding it"""
    return 12 < _bfl_speed(i) < i["takeoff|vr"][0] - .15


def _bfl_near(v, o, r):
    """a share of the fields whose balanced speed is close to the rotation speed"""
    if r.random() < .3 and _bfl_speed(v) > 20:
        v["takeoff|vr"] = np.array([_bfl_speed(v) + float(r.uniform(.2, 2))])
    return v


Spec("vf:BFL", "C08", {"takeoff|vr": ("m/s", None, U(25, 90)), "a0": (None, None, U(1200, 2500)), "a1": (None, None, U(2, 12)), "a2": (None, None, U(0, .02)),
                       "b0": (None, None, U(3, 15)), "b2": (None, None, U(.05, .3))},
     {"takeoff|v1": "m/s", "distance_continue": "m", "distance_abort": "m"}, nn=None, build=_bfl_build, group=True, solver=lambda g: None, name="BFLImplicitSolve",
     ref=lambda i, o: {}, inv=_bfl, sure=_bfl_sure, fixup=_bfl_near, weight=2, deriv=False, pointwise=False)
