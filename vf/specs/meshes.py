"""Wing meshes, spanwise interpolation and section wave drag, re-derived from the planform they stand for."""
import numpy as np
from ..spec import Spec, U, LU, MIX, CH
from .aero import some, fl
from .weights import sec_in, sec_opts, sec_fix, panels, quad, lin

A = "openconcept.aerodynamics.openaerostruct:"


def trap_mesh(S, AR, taper, sweep, nx, ny):
    b2 = np.sqrt(S * AR) / 2
    cr = S / b2 / (1 + taper)
    m = np.zeros((nx + 1, ny + 1, 3))
    for j in range(ny + 1):
        eta = 1 - j / ny
        c = cr * (1 - eta * (1 - taper))
        for i in range(nx + 1):
            m[i, j] = [eta * b2 * np.tan(np.radians(sweep)) + (i / nx - .25) * c, -eta * b2, 0.0]
    return m


def mesh_geometry(rep, name, m, S=None, AR=None, taper=None, sweep=None, **kw):
    """Geometry measured on the mesh itself (the way a panel code would see it)."""
    x, y, z = m[..., 0], m[..., 1], m[..., 2]
    rep.require(name + ":flat and finite", np.all(np.isfinite(m)) and np.all(z == 0), **kw)
    rep.require(name + ":columns share one spanwise station", np.allclose(y, y[:1], rtol=0, atol=1e-10 * np.ptp(y)), **kw)
    rep.require(name + ":tip to symmetry plane", abs(y[0, -1]) <= 1e-10 * np.ptp(y) and np.all(np.diff(y, axis=1) > 0), **kw)
    rep.require(name + ":leading to trailing edge", np.all(np.diff(x, axis=0) > 0), **kw)
    c = x[-1] - x[0]
    area = 2 * np.sum((c[1:] + c[:-1]) / 2 * np.diff(y[0]))
    if S is not None:
        rep.close(name + ":area of the mesh", area, S, rtol=1e-9, **kw)
    if AR is not None:
        rep.close(name + ":aspect ratio of the mesh", (2 * -y[0, 0]) ** 2 / area, AR, rtol=1e-9, **kw)
    if taper is not None:
        rep.close(name + ":taper of the mesh", c[0] / c[-1], taper, rtol=1e-9, **kw)
    if sweep is not None:
        q = x[0] + c / 4
        rep.close(name + ":sweep of the mesh", np.degrees(np.arctan2(q[0] - q[-1], y[0, -1] - y[0, 0])), sweep, rtol=1e-8, atol=1e-8, **kw)


def _trap_inv(rep, i, o, g):
    mesh_geometry(rep, "TrapezoidalPlanformMesh", g["mesh"], i["S"][0], i["AR"][0], i["taper"][0], i["sweep"][0], options=o, inputs=i)


Spec(A + "TrapezoidalPlanformMesh", "C27", {"S": ("m**2", None, LU(5, 800)), "AR": (None, None, U(3, 25)), "taper": (None, None, U(.05, 1, edges=(1.0,))), "sweep": ("deg", None, U(-30, 45, edges=(0.0,)))},
     {"mesh": "m"}, nn=None, opts=lambda r: some(r, .8, num_x=lambda r: int(r.integers(1, 7)), num_y=lambda r: int(r.integers(1, 20))), inv=_trap_inv, atol={"mesh": 1e-9},
     D={"S": 10, "AR": 10, "taper": 1.0, "sweep": 10}, weight=1.5,
     ref=lambda i, o: {"mesh": trap_mesh(i["S"][0], i["AR"][0], i["taper"][0], i["sweep"][0], o.get("num_x", 2), o.get("num_y", 6))})


def cosfrac(n):
    """n+1 cosine-spaced fractions of [0,1]"""
    return np.array([np.sin(np.pi * k / n / 2) ** 2 for k in range(n + 1)])


def ny_opts(r, d):
    """num_y as an integer or per-region iterable"""
    n = d.get("num_sections", 2)
    t = r.random()
    if t < .35:
        d["num_y"] = int(r.integers(1, 8))
    elif t < .85:
        v = [int(x) for x in r.integers(1, 8, n - 1)]
        d["num_y"] = [v, tuple(v), np.array(v)][int(r.integers(0, 3))]
    return d


def regions(o):
    n, ny = o.get("num_sections", 2), o.get("num_y", 7)
    return [ny] * (n - 1) if isinstance(ny, (int, np.integer)) else [int(k) for k in ny]


def sp_opts(r):
    n = int(r.integers(2, 7))
    d = {"num_sections": n} if (n != 2 or r.random() < .5) else {}
    d.update(some(r, .7, num_x=lambda r: int(r.integers(1, 6)), scale_area=lambda r: bool(r.random() < .5)))
    return ny_opts(r, d)


def spanwise(vals, o, frac):
    """Value at every mesh line: linear between sections in the spacing of the mesh."""
    out = [vals[0]]
    for s, n in enumerate(regions(o)):
        f = frac(n)
        out += [vals[s] + (vals[s + 1] - vals[s]) * t for t in f[1:]]
    return np.array(out)


def _secmesh(i, o):
    fx = cosfrac(o.get("num_x", 3))
    y = spanwise(np.append(i["y_sec"], 0.0), o, cosfrac)
    c, x = spanwise(i["chord_sec"], o, cosfrac), spanwise(i["x_LE_sec"], o, cosfrac)
    ysec = np.append(i["y_sec"], 0.0)
    area = 2 * quad(ysec, lambda j, s: lin(i["chord_sec"], j, s))
    m = np.zeros((len(fx), len(y), 3))
    m[..., 0] = x[None, :] + fx[:, None] * c[None, :]
    m[..., 1] = y[None, :]
    if o.get("scale_area", True):
        return {"mesh": m * np.sqrt(i["S"] / area)}
    return {"mesh": m, "S": area}


def _secmesh_inv(rep, i, o, g):
    S = i["S"] if o.get("scale_area", True) else g["S"]
    mesh_geometry(rep, "SectionPlanformMesh", g["mesh"], float(np.ravel(S)[0]), options=o, inputs=i)


def _sm_in(o):
    d = sec_in(o)
    if o.get("scale_area", True):
        d["S"] = ("m**2", None, LU(5, 900))
    return d


Spec(A + "SectionPlanformMesh", "C27", _sm_in, lambda o: {"mesh": "m"} if o.get("scale_area", True) else {"mesh": "m", "S": "m**2"}, nn=None, opts=sp_opts, fixup=sec_fix, ref=_secmesh, inv=_secmesh_inv,
     atol={"mesh": 1e-9}, weight=2)


def li_opts(r):
    n = int(r.integers(2, 7))
    d = {"num_sections": n} if (n != 2 or r.random() < .5) else {}
    d.update(some(r, .6, cos_spacing=lambda r: bool(r.random() < .35)))
    return ny_opts(r, d)


def _fr(o):
    return cosfrac if o.get("cos_spacing", True) else (lambda n: np.arange(n + 1) / n)


def _tc(i, o):
    v = spanwise(i["section_toverc"], o, _fr(o))
    return {"panel_toverc": (v[1:] + v[:-1]) / 2}


Spec(A + "ThicknessChordRatioInterp", "C27", lambda o: {"section_toverc": (None, (o.get("num_sections", 2),), U(.05, .2))}, {"panel_toverc": None}, nn=None, opts=li_opts, ref=_tc)
Spec(A + "SectionLinearInterp", "C27", lambda o: {"property_sec": (o.get("units"), (o.get("num_sections", 2),), U(-9, 9))}, lambda o: {"property_node": o.get("units")}, nn=None,
     opts=lambda r: dict(li_opts(r), **some(r, .5, units=lambda r: ["m", "deg", "ft", "kg"][int(r.integers(0, 4))])), ref=lambda i, o: {"property_node": spanwise(i["property_sec"], o, _fr(o))}, atol=1e-10)


# ------------------------------------------------------------------ wave drag of a wing region
def _wd_in(o):
    d = {"fltcond|M": (None, "n", MIX(U(.5, .75), U(.7, .95))), "fltcond|CL": (None, "n", U(0, .8)), "toverc_sec": (None, (o.get("num_sections", 2),), U(.07, .16)),
         "c4sweep": ("deg", None, U(0, 42, edges=(0.0,))), **sec_in(o, False)}
    if o.get("specify_area_norm"):
        d["S_ref"] = ("m**2", None, LU(50, 900))
    return d


def wave(i, o):
    y, c, _ = panels(i, o)
    n, a, b = o.get("num_sections", 2), o.get("idx_sec_start", 0), o.get("idx_sec_end")
    t = i["toverc_sec"][a:(n - 1 if b is None else b) + 1]
    area = quad(y, lambda j, s: lin(c, j, s))
    tc = quad(y, lambda j, s: lin(c, j, s) * lin(t, j, s)) / area
    cs = np.cos(np.radians(i["c4sweep"]))
    Mdd = o.get("airfoil_tech_level", .95) / cs - tc / cs ** 2 - i["fltcond|CL"] / 10 / cs ** 3
    over = np.maximum(i["fltcond|M"] - (Mdd - (.1 / 80) ** (1 / 3)), 0.0)
    # Lock's fourth-power law; both wing halves, as OpenAeroStruct counts them
    return 2 * 20 * over ** 4, 2 * 80 * (over + 1e-5) ** 3 * 1e-6 / cs ** 2, 2 * area


def _wave_inv(rep, i, o, g):
    cd, tol, area = wave(i, o)
    got = g["CD_wave"]
    if not o.get("specify_area_norm"):
        rep.close("WaveDragFromSections:CD_wave", got, cd, rtol=1e-7, atol=tol, options=o, inputs=i)
        return
    k = area / i["S_ref"][0]  # the region's drag referred to S_ref
    if np.all(np.abs(got - cd * k) <= 1e-7 * cd * k + tol * k):
        rep.event("oracle_comparisons", got.size)
    elif np.all(np.abs(got - cd / k) <= 1e-7 * cd / k + tol / k):
        rep.event("oracle_comparisons", got.size)
        rep.violate("WaveDragFromSections:area_ratio_inverted_with_specify_area_norm", got=got, want=cd * k, options=o, inputs=i)
    else:
        rep.close("WaveDragFromSections:CD_wave(normalized)", got, cd * k, rtol=1e-7, atol=tol * k, options=o, inputs=i)


Spec(A + "WaveDragFromSections", "C28", _wd_in, {"CD_wave": None}, fixup=sec_fix, inv=_wave_inv, ref=lambda i, o: {}, weight=2,
     opts=lambda r: sec_opts(r, specify_area_norm=lambda r: bool(r.random() < .6), airfoil_tech_level=fl(.87, .97)))
