"""C26: engine decks against the raw engine-cycle tables, rubberized engines against their parent deck."""
import os
import numpy as np
import openmdao.api as om
from ..core import rng_for, REPO, HarnessSkip

RULE = ("distinct (deck or rubberized configuration, node count, operating points) at which every output was compared with "
        "the tabulated engine-cycle data or with the parent deck")
ASSUMPTIONS = ["a Kriging surrogate is allowed its regularisation error at tabulated points (at most 0.2 % of the range, 1 % for the "
               "surge margin) and 4 % of the range (surge margin 12 %) against multilinear interpolation between them",
               "rated thrusts 28620 lbf (N+3) and 27300 lbf (CFM56), heating values 43 and 120 MJ/kg as documented"]
WORKERS = 8
OUT = {"CFM56": ("thrust", "fuel_flow", "T4"), "N3": ("thrust", "fuel_flow", "surge_margin"),
       "N3Hybrid": ("thrust", "fuel_flow", "surge_margin")}
UNITS = {"thrust": "lbf", "fuel_flow": "lbm/s", "T4": "degR", "surge_margin": None}
RATED = {"N3": 28620.0, "CFM56": 27300.0}


def raw(deck):
    """Rows (throttle, h ft, M[, kW]) -> outputs, straight from the data files."""
    d = os.path.join(REPO, "openconcept", "propulsion", "empirical_data")
    ld = lambda *p: np.load(os.path.join(d, *p))  # noqa: E731
    rows = []
    if deck == "CFM56":
        T, F, K = ld("cfm56", "cfm56thrust.npy"), ld("cfm56", "cfm56wf.npy"), ld("cfm56", "cfm56t4.npy")
        for i in range(T.shape[0]):
            for j in range(T.shape[1]):
                for k in range(T.shape[2]):
                    h, m, t = 35000.0 - 5000.0 * i, 0.8 - 0.1 * j, 1.0 - 0.1 * k
                    if T[i, j, k] > 0 and not (h == 0 and m > 0.55):   # no data is used for high Mach at sea level
                        rows.append((t, h, m, T[i, j, k], F[i, j, k], K[i, j, k]))
        return np.array(rows), 3
    base = "n+3" if deck == "N3" else "n+3_hybrid"
    T, A, M, H = (ld(base, "power_off", x + ".npy") for x in ("thrust", "alt", "mach", "throttle"))
    for power, sub in ((0.0, "power_off"), (500.0, "power_on_500kW"), (1000.0, "power_on_1MW")):
        if deck == "N3" and power:
            continue
        F, S = ld(base, sub, "wf.npy"), ld(base, sub, "SMW.npy")
        for ix in np.ndindex(F.shape):
            if F[ix] > 0:
                rows.append((H[ix], A[ix], M[ix]) + ((power,) if deck == "N3Hybrid" else ()) + (T[ix], F[ix], S[ix]))
    return np.array(rows), (4 if deck == "N3Hybrid" else 3)


def names(deck):
    return ["throttle", "fltcond|h", "fltcond|M"] + (["hybrid_power"] if deck == "N3Hybrid" else [])


def build(deck, nn, **kw):
    import openconcept.propulsion as pr
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", getattr(pr, deck)(num_nodes=nn, **kw), promotes=["*"])
    p.setup(check=False, mode="fwd")
    return p


def training_agrees(rep, deck, rows, nin):
    """The surrogates must be trained on every tabulated point (checked before any (slow) retraining could start)."""
    import openconcept.propulsion as pr
    c = getattr(pr, deck)(num_nodes=1)
    subs = [c] if isinstance(c, om.MetaModelUnStructuredComp) else []
    if not subs:
        return True
    c = subs[0]
    try:
        cols = [np.asarray(c.options["train_" + k], float).ravel() for k in names(deck) + list(OUT[deck])]
    except (KeyError, TypeError, ValueError):
        return True
    ok = True
    if len({len(x) for x in cols}) != 1:
        rep.violate("deck:%s:training data ragged" % deck, lengths=[len(x) for x in cols])
        return False
    got = np.array(cols).T
    rng = np.ptp(rows, axis=0)
    for r in rows:
        rep.events["oracle_comparisons"] += 1
        d = np.max(np.abs(got[:, :nin] - r[:nin]) / rng[:nin], axis=1)
        near = np.flatnonzero(d < 1e-6)
        if not len(near):
            rep.violate("deck:%s:tabulated point not in the surrogate's data" % deck, point=r)
            ok = False
        elif np.max(np.abs(got[near][:, nin:] - r[nin:]) / rng[nin:]) > 1e-6:
            rep.violate("deck:%s:surrogate trained on other values" % deck, point=r, got=got[near[0]])
            ok = False
    rep.event("tabulated_points_found_in_training_data", len(rows))
    return ok


def deck_case(rep, deck, seed, n, chunk=0):
    rows, nin = raw(deck)
    if not training_agrees(rep, deck, rows, nin):
        rep.evaluated((deck, "table"))
        return
    rng = rng_for("C26", deck, seed, chunk)
    span = np.ptp(rows, axis=0)
    # every tabulated point, in random order and random batches
    order = rng.permutation(len(rows))
    batches = [order] if chunk == 0 else []
    for _ in range(n):
        batches.append(order[rng.choice(len(order), int(rng.choice([1, 2, 3, 7, 11, 24])), replace=False)])
    for b in batches:
        p = build(deck, len(b))
        for i, k in enumerate(names(deck)):
            v = rows[b, i]
            if k == "fltcond|h" and rng.random() < 0.5:
                p.set_val(k, v * 0.3048, units="m")
            elif k == "hybrid_power" and rng.random() < 0.5:
                p.set_val(k, v / 0.74569987158227022, units="hp")
            else:
                p.set_val(k, v)
        p.run_model()
        for i, o in enumerate(OUT[deck]):
            tol = (1e-2 if o == "surge_margin" else 2e-3) * span[nin + i]
            rep.close("deck:%s:%s at tabulated points" % (deck, o), p.get_val(o, units=UNITS[o]), rows[b, nin + i],
                      rtol=0, atol=tol, inputs=rows[b, :nin][:5])
        rep.evaluated((deck, "table", tuple(map(int, b[:12]))))
        rep.event("tabulated_points_evaluated", len(b))
    # between tabulated points: multilinear interpolation of the table
    from scipy.interpolate import RegularGridInterpolator
    axes = [np.unique(np.round(rows[:, i], 9)) for i in range(nin)]
    grid = np.full([len(a) for a in axes] + [len(OUT[deck])], np.nan)
    for r in rows:
        grid[tuple(int(np.argmin(abs(a - r[i]))) for i, a in enumerate(axes))] = r[nin:]
    f = RegularGridInterpolator(axes, grid)
    for _ in range(n):
        nn = int(rng.choice([1, 5, 11]))
        pts = np.array([[rng.uniform(a[0], a[-1]) for a in axes] for _ in range(nn)])
        want = f(pts)
        ok = np.all(np.isfinite(want), axis=1)
        p = build(deck, nn)
        for i, k in enumerate(names(deck)):
            p.set_val(k, pts[:, i])
        p.run_model()
        for i, o in enumerate(OUT[deck]):
            got = p.get_val(o, units=UNITS[o])
            tol = (0.12 if o == "surge_margin" else 0.04) * span[nin + i]
            rep.close("deck:%s:%s between tabulated points" % (deck, o), got[ok], want[ok, i], rtol=0, atol=tol,
                      inputs=pts[:5])
        rep.evaluated((deck, "between", pts.round(9).tobytes()))
        rep.event("points_between_tabulated_points", int(ok.sum()))
    rep.sample(deck=deck, tabulated=len(rows), point=rows[int(order[0])])


def rubber_case(rep, seed, n, chunk=0):
    rng = rng_for("C26", "rubber", seed, chunk)
    import openconcept.propulsion as pr
    if not hasattr(pr, "RubberizedTurbofan"):
        raise HarnessSkip("no RubberizedTurbofan")
    for _ in range(n):
        eng = str(rng.choice(["N3", "CFM56"]))
        hy = bool(rng.random() < 0.5)
        nn = int(rng.choice([1, 2, 5, 11]))
        kw = {}
        if not (eng == "N3" and rng.random() < 0.3):
            kw["engine"] = eng
        if hy or rng.random() < 0.5:
            kw["hydrogen"] = hy
        rating = float(np.exp(rng.uniform(np.log(2e3), np.log(2e5))))
        if rng.random() < 0.15:
            rating = RATED[eng]
        t, h, M = rng.uniform(0.05, 1.05, nn), rng.uniform(0, 35000, nn), rng.uniform(0.2, 0.8, nn)
        p0 = build(eng, nn)
        p = build("RubberizedTurbofan", nn, **kw)
        for q in (p0, p):
            q.set_val("throttle", t)
            q.set_val("fltcond|h", h, units="ft")
            q.set_val("fltcond|M", M)
        if rng.random() < 0.5:
            p.set_val("ac|propulsion|engine|rating", rating, units="lbf")
        else:
            p.set_val("ac|propulsion|engine|rating", rating * 4.4482216152605 / 1e3, units="kN")
        p0.run_model()
        p.run_model()
        if rng.random() < 0.4:      # a second rating on the same problem
            rating = float(np.exp(rng.uniform(np.log(2e3), np.log(2e5))))
            p.set_val("ac|propulsion|engine|rating", rating, units="lbf")
            p.run_model()
            rep.event("rerated")
        k = "rubberized:%s:%s:" % (eng, "hydrogen" if hy else "kerosene")
        r = rating / RATED[eng]
        info = dict(options=kw, rating_lbf=rating, throttle=t[:3], h_ft=h[:3], M=M[:3])
        rep.close(k + "thrust", p.get_val("thrust", units="lbf"), p0.get_val("thrust", units="lbf") * r, rtol=1e-7, **info)
        lhv = 43.0 / 120.0 if hy else 1.0
        rep.close(k + "fuel_flow", p.get_val("fuel_flow", units="lbm/s"), p0.get_val("fuel_flow", units="lbm/s") * r * lhv,
                  rtol=1e-7, **info)
        rep.close(k + "specific consumption", p.get_val("fuel_flow") / p.get_val("thrust"),
                  p0.get_val("fuel_flow", units="lbm/s") / p0.get_val("thrust", units="lbf") * lhv, rtol=1e-9, **info)
        o = OUT[eng][2]
        rep.close(k + o, p.get_val(o, units=UNITS[o]), p0.get_val(o, units=UNITS[o]), rtol=1e-9, **info)
        rep.evaluated((eng, hy, nn, round(rating, 6), t.tobytes()))
        rep.event("rubberized_configurations")
        # derivatives against central differences in each node and the rating
        if rng.random() < 0.5:
            wrt = ["throttle", "fltcond|h", "fltcond|M", "ac|propulsion|engine|rating"]
            of = ["thrust", "fuel_flow", o]
            J = p.compute_totals(of=of, wrt=wrt)
            w = str(rng.choice(wrt))
            x0 = np.array(p.get_val(w), float)
            i = int(rng.integers(x0.size))
            stp = {"throttle": 1e-4, "fltcond|h": 2.0, "fltcond|M": 1e-4}.get(w, 1e-4 * abs(x0[i]))
            vals = []
            for s in (1, -1, 2, -2):
                x = x0.copy(); x[i] += s * stp
                p.set_val(w, x)
                p.run_model()
                vals.append({q: np.array(p.get_val(q)) for q in of})
            for q in of:
                fd = (8 * (vals[0][q] - vals[1][q]) - (vals[2][q] - vals[3][q])) / (12 * stp)
                rep.close(k + "d%s/d%s" % (q, w.split("|")[-1]), J[q, w][:, i], fd, rtol=2e-5,
                          scale=np.max(np.abs(vals[0][q])) / {"throttle": 1.0, "fltcond|h": 3e4, "fltcond|M": 1.0}.get(w, abs(x0[i])))
            rep.event("derivative_columns")


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for d in OUT:
        for c in range(2 if q else 8):
            out.append(dict(fn="deck_case", args=dict(deck=d, seed=seed, n=12 if q else 60, chunk=c)))
    for c in range(6 if q else 32):
        out.append(dict(fn="rubber_case", args=dict(seed=seed, n=12 if q else 40, chunk=c)))
    return out
