"""Mission cases shared by C06 (kinematics and closure), C07 (mass, energy, forces) and C08 (takeoff)."""
import numpy as np
import openmdao.api as om
from .. import mission as M, examples as E
from ..core import rng_for, HarnessSkip

PROFILES = ["BasicMission", "MissionWithReserve", "FullMissionAnalysis", "FullMissionWithReserve"]


def chain(profile, opts):
    pre = ["v0v1", "v1vr", "rotate"] if profile.startswith("Full") else ["groundroll"] if opts.get("include_ground_roll") else []
    return pre + M.STEADY[profile]


def audit(rep, prop, t, profile, opts, params, sched, S, mtow, clmax, fuel, batt, extra, a=None, example=None):
    steady = M.STEADY[profile]
    gr = bool(opts.get("include_ground_roll"))
    ch = chain(profile, opts)
    if prop == "C06":
        for ph in steady:
            M.steady_kinematics(rep, t, ph, sched[ph])
        M.closure(rep, t, profile, params, gr)
        if gr:
            v2 = t("takeoff|v2", "m/s")[0]
            M.roll(rep, t, "groundroll", S, 2.0, v2, 0.0)
            rep.close("closure:climb_starts_where_the_ground_roll_ends", t("climb.range", "m")[0], t("groundroll.range", "m")[-1], rtol=1e-9)
        if profile.startswith("Full"):
            rep.close("closure:climb_starts_where_takeoff_ends", t("climb.range", "m")[0], t("rotate.range_final", "m")[0], rtol=1e-9)
            rep.close("closure:climb_starts_over_the_obstacle", t("climb.fltcond|h", "m")[0], t("rotate.fltcond|h_final", "m")[0], rtol=1e-9)
            for p_ in ("v0v1", "v1vr", "v1v0"):
                M.integral(rep, "closure:takeoff_distance:" + p_, t(p_ + ".range", "m"), {"v0v1": 0.0, "v1vr": t("v0v1.range", "m")[-1], "v1v0": t("v0v1.range", "m")[-1]}[p_],
                           t(p_ + ".fltcond|groundspeed", "m/s"), t(p_ + ".duration", "s")[0], p_)
            rep.close("closure:takeoff_starts_rotation", t("rotate.range", "m")[0], t("v1vr.range", "m")[-1], rtol=1e-9)
    elif prop == "C07":
        for ph in steady:
            M.forces(rep, t, ph, S)
            if a:
                M.synthetic_thrust(rep, t, a, ph)
        if fuel:
            M.ledger(rep, t, ch, mtow, *fuel)
            if profile.startswith("Full"):    # the rejected takeoff starts with what the acceleration left
                u0 = t("v0v1." + fuel[1], "kg")[-1]
                M.ledger(rep, t, ["v1v0"], mtow, *fuel, initial=u0)
        else:
            for ph in ch:
                rep.close("ledger:weight_constant_without_fuel", t(ph + ".weight", "kg"), mtow, rtol=1e-12, phase=ph)
        if batt:
            cap = t(ch[0] + "." + batt[2], "J")[0]
            M.charge(rep, t, ch, batt[0], batt[1], cap)
            if profile.startswith("Full"):
                M.charge(rep, t, ["v1v0"], batt[0], batt[1], cap, initial=t("v0v1." + batt[1])[-1])
    else:
        M.takeoff(rep, t, S, clmax, mtow, dict(opts), extra)
        if a:
            for ph in ("v0v1", "v1vr", "v1v0", "rotate", "engineoutclimb"):
                M.synthetic_thrust(rep, t, a, ph)
        if fuel:
            # the fuel of the failed-engine segments comes off the weight they are flown at
            for ph in ("v0v1", "v1vr", "rotate"):
                rep.close("takeoff:weight_is_mtow_less_fuel:" + ph, t(ph + ".weight", "kg"), mtow - t(ph + "." + fuel[1], "kg"), rtol=1e-9)


def synthetic(rep, prop, profile, chunk, n, seed):
    """Random aircraft and missions; at least some of each batch must be flyable (nearly all are, on sound code)."""
    flown = 0
    for j in range(n):
        cfg = M.draw_cfg(seed, profile, chunk * 1000 + j)
        a = cfg["aircraft"]
        try:
            p = M.fly(cfg)
        except om.AnalysisError:
            rep.skip("analysis error while converging")
            continue
        t = M.Trace(p)
        if not M.solved(p) or not M.settled(t, M.STEADY[profile]):
            rep.skip("mission did not converge")
            continue
        flown += 1
        rep.event("missions"); rep.event("profile:" + profile); rep.event("integration:" + a["integ"]); rep.event("nodes:%d" % cfg["nn"])
        for k, v in cfg["opts"].items():
            rep.event("option:%s=%s" % (k, v))
        rep.evaluated((profile, cfg["id"], cfg["nn"]))
        rep.sample(profile=profile, options=cfg["opts"], nodes=cfg["nn"], aircraft=a, params=cfg["params"])
        fuel = ("fuel_flow", "fuel_used") if a["fuel"] else None
        batt = ("elec_load", "SOC", "batt.max_energy") if a["elec"] else None
        audit(rep, prop, t, profile, cfg["opts"], cfg["params"], {k: (np.asarray(v), np.asarray(u)) for k, (v, u) in cfg["sched"].items()}, a["S"], a["mtow"], a["clmax"],
              fuel, batt, cfg["extra"], a)
    if n >= 4:
        rep.require("converges:%s:flyable_missions_converge" % profile, flown > 0, tried=n)


def example(rep, prop, name, k, seed):
    x = E.X[name]
    try:
        p, t, x, ok = E.fly(name, seed, k)
    except om.AnalysisError:
        ok = False
    if k == 0:
        rep.require("converges:example:%s" % name, ok)
    if not ok:
        rep.skip("varied example did not converge: " + name)
        return
    S, mt = E.top(p, "ac|geom|wing|S_ref", "m**2"), E.top(p, x.get("mtow", "ac|weights|MTOW"), "kg")
    full = x["profile"].startswith("Full")
    opts = dict({"transition_method": "simplified"} if full else {}, **x.get("opts", {}))
    extra = {}
    rep.event("missions"); rep.event("example:" + name); rep.event("profile:" + x["profile"])
    rep.evaluated((name, k, seed))
    if full:     # throttle deratings and failure settings of the shipped set-up
        for ph in ("v0v1", "v1vr", "v1v0", "rotate"):
            extra[ph + ".throttle"] = (t(ph + ".throttle"), None)
    audit(rep, prop, t, x["profile"], opts, E.params(p, x), E.sched(p, x), S, mt, E.top(p, "ac|aero|CLmax_TO") if full else None, x.get("fuel"), x.get("batt"), extra)
    if prop == "C07" and name == "B738_sizing":
        rep.close("ledger:takeoff_weight_is_empty_payload_fuel", mt, E.top(p, "ac|weights|OEW", "kg") + E.top(p, "ac|weights|W_payload", "kg")
                  + t("loiter.fuel_burn_integ.fuel_burn", "kg")[-1], rtol=1e-7)
    if prop == "C07" and name == "HybridTwin":
        rep.close("ledger:margin", E.top(p, "margins.MTOW_margin", "kg"), mt - E.top(p, "cruise.OEW", "kg") - t("descent.fuel_used", "kg")[-1]
                  - E.top(p, "ac|weights|W_battery", "kg") - E.top(p, "payload", "kg"), rtol=1e-7, atol=1e-6)


def totals(rep, profile, chunk, n, seed):
    """Gradients through whole converged missions against differences of re-converged ones (C02)."""
    for j in range(n):
        cfg = M.draw_cfg(seed, profile, 500000 + chunk * 1000 + j)
        rng = rng_for("totals", seed, profile, chunk, j)
        try:
            p = M.fly(cfg)
        except om.AnalysisError:
            rep.skip("analysis error while converging")
            continue
        p.model.nonlinear_solver.options["atol"] = 1e-9
        t = M.Trace(p)
        steady = M.STEADY[profile]
        p.run_model()
        if not M.solved(p, 1e-7) or not M.settled(t, steady):
            rep.skip("mission did not converge")
            continue
        a = cfg["aircraft"]
        W = {"ac|aero|polar|e": None, "ac|aero|polar|CD0_cruise": None, "ac|geom|wing|S_ref": "m**2", "ac|geom|wing|AR": None, "ac|weights|MTOW": "kg", "ac|propulsion|rating": "N",
             "takeoff|h": "m", "cruise|h0": "m", "mission_range": "m"}
        if a["fuel"]:
            W["ac|propulsion|tsfc"] = None
        if a["elec"]:
            W["ac|propulsion|battery|weight"] = "kg"
        if profile.endswith("Reserve"):
            W.update({"reserve_range": "m", "reserve|h0": "m", "loiter|h0": "m", "loiter_duration": "s"})
        if profile.startswith("Full"):
            W.update({"ac|aero|CLmax_TO": None, "ac|aero|polar|CD0_TO": None, "ac|propulsion|frac": None, "v0v1.braking": None})
        for ph in steady:
            W[ph + ".fltcond|Ueas"] = "m/s"
            W[ph + ".fltcond|vs"] = "m/s"
        keys = [k for k in W if rng.random() < 6 / len(W)] or ["mission_range"]
        O = [ph + "." + v for ph in steady for v in ("throttle", "fltcond|CL", "range", "fltcond|h")]
        if a["fuel"]:
            O += [ph + ".fuel_used" for ph in chain(profile, cfg["opts"])]
        if a["elec"]:
            O += [ph + "." + "batt.SOC" for ph in steady]
        if profile.startswith("Full"):
            O += ["rotate.range_final", "takeoff|v1", "v1v0.range_final", "engineoutclimb.gamma"]
        O = [o for o in O if t.has(o)]
        keys = [k for k in keys if t.has(k)]
        if not compare_totals(rep, p, t, steady, O, keys, rng, "mission_totals:" + profile, dict(options=cfg["opts"], aircraft=a, cfg=list(cfg["id"]))):
            continue
        rep.evaluated((profile, cfg["id"], tuple(keys)))
        rep.event("mission_gradients", len(keys)); rep.event("profile:" + profile)
        rep.sample(profile=profile, options=cfg["opts"], aircraft=a, wrt=keys, of=O)


def example_totals(rep, name, k, seed, n=6):
    """Gradients of a shipped example aircraft's mission with respect to its own aircraft data (C02)."""
    x = E.X[name]
    rng = rng_for("example_totals", name, k, seed)
    try:
        p, t, x, ok = E.fly(name, seed, k)
    except om.AnalysisError:
        ok = False
    if not ok:
        rep.skip("example did not converge: " + name)
        return
    steady = M.STEADY[x["profile"]]
    pre = x.get("prefix", "")
    top_ = p.model.list_outputs(is_indep_var=True, out_stream=None, prom_name=True, return_format="dict")
    cand = sorted({m["prom_name"] for m in top_.values() if m["prom_name"].startswith("ac|")})
    cand = [c for c in cand if np.any(np.array(p.get_val(c), float) != 0) and not c.endswith("num_engines") and "num_" not in c.split("|")[-1]]
    keys = [cand[i] for i in sorted(rng.permutation(len(cand))[:n])] + [pre + "mission_range"] if cand else [pre + "mission_range", pre + "cruise|h0"]
    O = [ph + "." + v for ph in steady for v in ("throttle", "fltcond|CL", "range", "fltcond|h")]
    if x.get("fuel"):
        O += [ph + "." + x["fuel"][1] for ph in steady]
    if x.get("batt"):
        O += [ph + "." + x["batt"][1] for ph in steady]
    O = [o for o in O if t.has(o)]
    if compare_totals(rep, p, t, steady, O, keys, rng, "example_totals:" + name, {}, pre, tol=x.get("tol", 1e-5)):
        rep.evaluated((name, k, tuple(keys)))
        rep.event("mission_gradients", len(keys)); rep.event("example:" + name)
        rep.sample(example=name, wrt=keys, of=O)


def compare_totals(rep, p, t, steady, O, keys, rng, tag, info, pre="", tol=1e-6):
    base = {o: t(o).ravel().copy() for o in O}
    try:
        J = p.compute_totals(of=[pre + o for o in O], wrt=keys)
    except KeyError as ex:
        raise HarnessSkip("name not found: %s" % ex)
    for k in keys:
        v = np.array(p.get_val(k), float)
        d = rng.uniform(.5, 1, v.shape) * rng.choice([-1., 1.], v.shape) * np.maximum(np.abs(v), 1e-3 * np.abs(v).max() if v.size else 0)
        if not np.any(d):
            d = np.ones(v.shape)

        def f(h):
            p.set_val(k, v + h * d)
            p.run_model()
            return {o: t(o).ravel().copy() for o in O} if M.solved(p, tol) and M.settled(t, steady) else None
        h = 2e-4 if k != "takeoff|h" else 2e-3
        try:
            F = [f(x) for x in (h, -h, h / 2, -h / 2)]
        except om.AnalysisError:
            F = [None]
        p.set_val(k, v)
        try:
            p.run_model()
        except om.AnalysisError:
            pass
        if any(x is None for x in F):
            rep.skip("difference did not converge")
            continue
        for o in O:
            jd = np.asarray(J[pre + o, k]).reshape(base[o].size, v.size) @ d.ravel()
            d1, d2 = (F[0][o] - F[1][o]) / (2 * h), (F[2][o] - F[3][o]) / h
            fw, bw = (F[2][o] - base[o]) / (h / 2), (base[o] - F[3][o]) / (h / 2)
            want = (4 * d2 - d1) / 3
            sc = np.max(np.abs(want))
            noise = 2e-8 * np.max(np.abs(base[o])) / h
            smooth = (np.abs(d1 - d2) <= 2e-3 * sc + noise) & (np.abs(fw - bw) <= 5e-2 * sc + 4 * noise)
            rep.events["oracle_comparisons"] += int(smooth.sum())
            bad = smooth & ~(np.abs(jd - want) <= 2e-3 * sc + 2 * np.abs(d1 - d2) + noise)
            if (~smooth).any():
                rep.skip("rough point of a mission")
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                rep.violate("%s:d(%s)/d(%s)" % (tag, o, k), element=i, analytic=jd[i], differenced=want[i], **info)
    return True


def cases(prop, tier, seed, quick_n=6, quick_chunks=6, thorough_chunks=40, variants=6):
    out = []
    for name, x in E.X.items():
        if prop == "C08" and not x["profile"].startswith("Full"):
            continue
        for k in range(2 if tier == "quick" and x["seconds"] < 8 else 1 if tier == "quick" else 1 + variants):
            out.append(dict(fn="example", args=dict(prop=prop, name=name, k=k, seed=seed)))
    out.sort(key=lambda c: -E.X[c["args"]["name"]]["seconds"])
    for prof in PROFILES:
        if prop == "C08" and not prof.startswith("Full"):
            continue
        for c in range((quick_chunks if tier == "quick" else thorough_chunks) * (2 if prop == "C08" else 1)):
            out.append(dict(fn="synthetic", args=dict(prop=prop, profile=prof, chunk=c, n=quick_n, seed=seed)))
    return out
