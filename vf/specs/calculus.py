"""Integration (C03) and differentiation (C04) over node grids.

References: Simpson = integral of the parabola through each pair of intervals; BDF3 = its published multistep relations
solved densely; differentiation = derivative of the Lagrange polynomial through the stencil's nodes; and for polynomial data
the exact calculus answer."""
import numpy as np
from ..spec import MIX, Spec, U, pick

TU = {None: 1.0, "s": 1.0, "min": 60.0, "h": 3600.0}
QU = {None: 1.0, "kg": 1.0, "lbm": 0.45359237, "m": 1.0, "ft": 0.3048, "km": 1000.0, "J": 1.0, "MJ": 1e6}


# ---- the reference integrators, on unit step
def simpson_weights(n):
    """state at node k = sum_j W[k, j] rate_j (unit step, zero start)"""
    W = np.zeros((n, n))
    x = np.arange(3.0)
    C = np.linalg.inv(np.vander(x, 3, increasing=True))      # coefficients of the parabola from its three values
    I1 = np.array([1, 1 / 2, 1 / 3]) @ C                      # integral 0..1
    I2 = np.array([2, 2, 8 / 3]) @ C                          # integral 0..2
    for k in range(0, n - 2, 2):
        for a, I in ((1, I1), (2, I2)):
            W[k + a] = W[k]
            W[k + a, k:k + 3] += I
    return W


def bdf3_weights(n):
    """Third-order backward differences: at nodes 1 and 2 the derivative of the cubic through nodes 0-3, at node k>=3 the
    derivative at k of the cubic through k-3..k, equals the given rate."""
    A = np.zeros((n - 1, n))
    x = np.arange(4.0)
    C = np.linalg.inv(np.vander(x, 4, increasing=True))
    d = lambda s: np.array([0, 1, 2 * s, 3 * s * s]) @ C
    A[0, 0:4], A[1, 0:4] = d(1.0), d(2.0)
    for k in range(3, n):
        A[k - 1, k - 3:k + 1] = d(3.0)
    W = np.zeros((n, n))
    W[1:, 1:] = np.linalg.inv(A[:, 1:])
    return W


def weights(method, n):
    return np.zeros((1, 1)) if n == 1 else (simpson_weights(n) if method == "simpson" else bdf3_weights(n))


def poly_or_noise(rng, n, t, deg):
    """values on the nodes: a polynomial of the scheme's degree, a constant, or noise; with the exact integral or None"""
    k = rng.random()
    if k < .45:
        c = rng.uniform(-2, 2, deg + 1)
    elif k < .55:
        c = rng.uniform(-2, 2, 1)
    else:
        return rng.uniform(-3, 3, n), None
    return np.polynomial.polynomial.polyval(t, c), c


# ---- Integrator
def _int_opts(r):
    method = str(r.choice(["simpson", "bdf3"]))
    nn = int(r.choice([1, 3, 5, 7, 11, 21] if method == "simpson" else [1, 5, 7, 11, 21]))
    du = [None, "s", "min", "h"][r.integers(4)]
    states = []
    for j in range(int(r.integers(1, 4))):
        s = {"name": "x%d" % j}
        k = r.integers(3)
        u = str(r.choice(["kg", "lbm", "m", "km", "J"]))
        if k == 0:
            s["units"] = u
        elif k == 1:
            s["rate_units"] = u + ("/" + du if du else "")
        if r.random() < .3:
            s["rate_name"] = "speed|%d" % j
        if r.random() < .3:
            s["start_name"] = "from%d" % j
        if r.random() < .3:
            s["end_name"] = "to%d" % j
        if r.random() < .3:
            s["zero_start"] = True
        if r.random() < .25:
            s["final_only"] = True
        if r.random() < .2:
            s["start_val"] = float(r.uniform(-5, 5))
        if r.random() < .2:
            s["val"] = float(r.uniform(-5, 5))
        states.append(s)
    return dict(method=method, num_nodes=nn, diff_units=du, time_setup=str(r.choice(["dt", "duration", "bounds"])), states=states,
                two_step_setup=bool(r.random() < .3), tscale=[None, "s", "min", "h"][r.integers(4)], kind=int(r.integers(2**31)))


def _state_units(s, du):
    """quantity unit, rate unit as a user reads them from the options"""
    if "units" in s:
        return s["units"], s["units"] + ("/" + du if du else "")
    if "rate_units" in s:
        q = s["rate_units"].split("/")[0]
        return q, s["rate_units"]
    return None, (du + "**-1" if du else None)


def _int_I(o):
    n = o["num_nodes"]
    du = o["diff_units"]
    tu = o["tscale"] if du else None        # time given in another unit of time than the integrator's
    tu = tu or du
    I = {}
    for k, (lo, hi) in {"dt": {"dt": (.1, 4)}, "duration": {"duration": (.5, 30)}, "bounds": {"t_initial": (-5, 5), "t_final": (6, 40)}}[o["time_setup"]].items():
        I[k] = (tu, None, U(lo, hi) if k == "t_initial" else MIX(U(lo, hi), U(lo, hi), U(-hi, -lo)))     # backwards too
    for s in o["states"]:
        qu, ru = _state_units(s, du)
        I[s.get("rate_name", s["name"] + "_rate")] = (ru, (n,), U(-3, 3))
        if not s.get("zero_start"):
            I[s.get("start_name", s["name"] + "_initial")] = (qu, None, U(-10, 10))
    return I


def _int_O(o):
    O = {}
    for s in o["states"]:
        qu, _ = _state_units(s, o["diff_units"])
        O[s.get("end_name", s["name"] + "_final")] = qu
        if not s.get("final_only"):
            O[s["name"]] = qu
    return O


def _int_build(o):
    c = pick("openconcept.utilities:Integrator")(**{k: o[k] for k in ("method", "num_nodes", "diff_units", "time_setup")})
    for s in o["states"]:
        c.add_integrand(**s)
    return c


def _step(i, o):
    """length of one step in the integrator's own unit of time"""
    du = o["diff_units"]
    f = TU[o["tscale"] if du and o["tscale"] else du] / TU[du]
    n = o["num_nodes"]
    if o["time_setup"] == "dt":
        return f * i["dt"][0]
    T = i["duration"][0] if o["time_setup"] == "duration" else i["t_final"][0] - i["t_initial"][0]
    return f * T / max(n - 1, 1)


def _int_fix(v, o, rng):
    n = o["num_nodes"]
    for s in o["states"]:
        k = s.get("rate_name", s["name"] + "_rate")
        v[k] = zeroed(rng, poly_or_noise(rng, n, np.linspace(-1, 1, n) if n > 1 else np.zeros(1), 2)[0])
    return _standstill(v, o, rng)


def zeroed(rng, x):
    """sometimes nothing happens at some or all of the nodes"""
    x = np.array(x, dtype=float)
    k = rng.integers(12)
    if k == 0:
        x[:] = 0.0
    elif k == 1:
        x[:1 + len(x) // 2] = 0.0
    elif k == 2:
        x[len(x) // 2:] = 0.0
    elif k == 3:
        x[rng.random(len(x)) < 0.5] = 0.0
    return x


def _standstill(v, o, rng):
    """sometimes no time passes at all"""
    if rng.random() < 0.04:
        for k in ("dt", "duration"):
            if k in v:
                v[k] = np.zeros_like(v[k])
        if "t_final" in v:
            v["t_final"] = np.array(v["t_initial"])
    return v


def _old_fix(v, o, rng):
    n = o["num_nodes"]
    x = np.array(v["dqdt"], dtype=float)
    for k in range(0, len(x), n):
        if rng.random() < 0.5:
            x[k:k + n] = zeroed(rng, x[k:k + n])
    v["dqdt"] = x if rng.random() < 0.9 else np.zeros_like(x)
    return _standstill(v, o, rng)


def _int_ref(i, o):
    n = o["num_nodes"]
    h = _step(i, o)
    W = weights(o["method"], n)
    out = {}
    for s in o["states"]:
        r = i[s.get("rate_name", s["name"] + "_rate")]
        x0 = 0.0 if s.get("zero_start") else i[s.get("start_name", s["name"] + "_initial")][0]
        x = x0 + h * (W @ r)
        out[s.get("end_name", s["name"] + "_final")] = x[-1:]
        if not s.get("final_only"):
            out[s["name"]] = x
    return out


def _int_inv(rep, i, o, g):
    """polynomial rates of the scheme's degree: the exact integral, independently of any scheme"""
    n, h = o["num_nodes"], _step(i, o)
    if n == 1:
        return
    z = np.linspace(-1, 1, n)
    for s in o["states"]:
        r = i[s.get("rate_name", s["name"] + "_rate")]
        c = np.polynomial.polynomial.polyfit(z, r, 2) if n > 3 else None
        e, full = s.get("end_name", s["name"] + "_final"), not s.get("final_only")
        if full:
            rep.close("Integrator:final_is_last_node", g[e], g[s["name"]][-1:], rtol=1e-14, atol=1e-13, options=o)
        if c is None or np.max(np.abs(np.polynomial.polynomial.polyval(z, c) - r)) > 1e-10:
            continue
        x0 = 0.0 if s.get("zero_start") else i[s.get("start_name", s["name"] + "_initial")][0]
        P = np.polynomial.polynomial.polyint(c)
        ex = x0 + (np.polynomial.polynomial.polyval(z, P) - np.polynomial.polynomial.polyval(-1.0, P)) * h * (n - 1) / 2
        rep.event("exact_polynomial_integrals")
        rep.close("Integrator:exact_for_polynomial_rate", g[s["name"]] if full else g[e], ex if full else ex[-1:], rtol=1e-9,
                  scale=np.abs(ex).max() + 1, options=o, inputs=i)


Spec("openconcept.utilities:Integrator", "C03", _int_I, _int_O, opts=_int_opts, nn=None, build=_int_build, fixup=_int_fix, ref=_int_ref, inv=_int_inv,
     rtol=1e-9, refscale=lambda k, w: np.abs(w).max() + 1, pointwise=False, atol=1e-10)


# ---- the older multi-segment integrator
def _old_opts(r):
    method = str(r.choice(["simpson", "bdf3"]))
    o = dict(method=method, num_nodes=int(r.choice([3, 5, 7, 11] if method == "simpson" else [5, 7, 11])), diff_units=[None, "s", "min"][r.integers(3)],
             quantity_units=[None, "kg", "km"][r.integers(3)], zero_start=bool(r.random() < .3), final_only=bool(r.random() < .25), time_setup="dt")
    if r.random() < .6:
        o["segment_names"] = ["climb", "cruise", "descent", "loiter"][:int(r.integers(1, 5))]
        if r.random() < .5:
            o["segments_to_count"] = [s for s in o["segment_names"] if r.random() < .6] or o["segment_names"][:1]
    else:
        o["time_setup"] = str(r.choice(["dt", "duration", "bounds"]))
    return o


def _old_units(o):
    q, d = o["quantity_units"], o["diff_units"]
    return q, ((q or "1") + ("/" + d if d else "") if (q or d) else None)


def _old_I(o):
    q, ru = _old_units(o)
    segs = o.get("segment_names")
    N = o["num_nodes"] * len(segs or [1])
    I = {"dqdt": (ru, (N,), U(-3, 3))}
    if not o["zero_start"]:
        I["q_initial"] = (q, None, U(-10, 10))
    if segs:
        for s in segs:
            I[s + "|dt"] = (o["diff_units"], None, U(.1, 4))
    else:
        for k, (lo, hi) in {"dt": {"dt": (.1, 4)}, "duration": {"duration": (.5, 30)}, "bounds": {"t_initial": (-5, 5), "t_final": (6, 40)}}[o["time_setup"]].items():
            I[k] = (o["diff_units"], None, U(lo, hi) if k == "t_initial" else MIX(U(lo, hi), U(lo, hi), U(-hi, -lo)))
    return I


def _old_ref(i, o):
    n, segs = o["num_nodes"], o.get("segment_names")
    W = weights(o["method"], n)
    x = 0.0 if o["zero_start"] else i["q_initial"][0]
    parts = []
    for k, s in enumerate(segs or [None]):
        if s is None:
            h = {"dt": lambda: i["dt"][0], "duration": lambda: i["duration"][0] / (n - 1), "bounds": lambda: (i["t_final"][0] - i["t_initial"][0]) / (n - 1)}[o["time_setup"]]()
        else:
            h = i[s + "|dt"][0] if s in o.get("segments_to_count", segs) else 0.0
        y = x + h * (W @ i["dqdt"][k * n:(k + 1) * n])
        parts.append(y)
        x = y[-1]
    q = np.concatenate(parts)
    out = {"q_final": q[-1:]}
    if not o["final_only"]:
        out["q"] = q
    return out


Spec("openconcept.utilities.math.integrals:OldIntegrator", "C03", _old_I, lambda o: dict({"q_final": o["quantity_units"]}, **({} if o["final_only"] else {"q": o["quantity_units"]})),
     opts=_old_opts, nn=None, ref=_old_ref, fixup=_old_fix, rtol=1e-9, refscale=lambda k, w: np.abs(w).max() + 1, atol=1e-10, pointwise=False)


# ---- FirstDerivative
def _fd_opts(r):
    order = int(r.choice([2, 4]))
    o = dict(order=order, num_intervals=int(r.choice([1, 2, 3, 5] if order == 2 else [2, 3, 5])), diff_units=[None, "s", "h"][r.integers(3)],
             quantity_units=[None, "m", "kg"][r.integers(3)])
    if r.random() < .6:
        o["segment_names"] = ["climb", "cruise", "descent", "loiter"][:int(r.integers(1, 5))]
    return o


def _fd_I(o):
    segs = o.get("segment_names")
    N = (2 * o["num_intervals"] + 1) * len(segs or [1])
    I = {"q": (o["quantity_units"], (N,), U(-3, 3))}
    for k in [s + "|dt" for s in segs] if segs else ["dt"]:
        I[k] = (o["diff_units"], None, U(.05, 4))
    return I


def _fd_fix(v, o, rng):
    n = 2 * o["num_intervals"] + 1
    parts = [poly_or_noise(rng, n, np.linspace(-1, 1, n), o["order"])[0] for _ in (o.get("segment_names") or [1])]
    v["q"] = np.concatenate(parts)
    return v


def _fd_ref(i, o):
    n, m, segs = 2 * o["num_intervals"] + 1, o["order"] + 1, o.get("segment_names")
    out = []
    for k, s in enumerate(segs or [None]):
        q = i["q"][k * n:(k + 1) * n]
        h = i["dt" if s is None else s + "|dt"][0]
        d = np.zeros(n)
        for j in range(n):
            a = min(max(j - m // 2, 0), n - m)
            x = np.arange(m) + a - j                      # stencil positions relative to the node, in steps
            c = np.linalg.solve(np.vander(x.astype(float), m, increasing=True), q[a:a + m])
            d[j] = c[1] / h
        out.append(d)
    return {"dqdt": np.concatenate(out)}


def _fd_inv(rep, i, o, g):
    n, segs = 2 * o["num_intervals"] + 1, o.get("segment_names")
    z = np.linspace(-1, 1, n)
    for k, s in enumerate(segs or [None]):
        q = i["q"][k * n:(k + 1) * n]
        if n <= o["order"] + 1:
            continue
        c = np.polynomial.polynomial.polyfit(z, q, o["order"])
        if np.max(np.abs(np.polynomial.polynomial.polyval(z, c) - q)) > 1e-10:
            continue
        h = i["dt" if s is None else s + "|dt"][0]
        ex = np.polynomial.polynomial.polyval(z, np.polynomial.polynomial.polyder(c)) * 2 / (h * (n - 1))
        rep.event("exact_polynomial_derivatives")
        rep.close("FirstDerivative:exact_for_polynomial", g["dqdt"][k * n:(k + 1) * n], ex, rtol=1e-7, scale=np.abs(ex).max() + 1e-3, options=o, inputs=i)


Spec("openconcept.utilities:FirstDerivative", "C04", _fd_I, lambda o: {"dqdt": ((o["quantity_units"] or "1") + ("/" + o["diff_units"] if o["diff_units"] else "") if o["quantity_units"] or o["diff_units"] else None)},
     opts=_fd_opts, nn=None, fixup=_fd_fix, ref=_fd_ref, inv=_fd_inv, rtol=1e-9, refscale=lambda k, w: np.abs(w).max(), atol=1e-10, pointwise=False)
