"""C28: panel-method drag models against direct analyses set up independently, through histories of wings, failed runs and
several live models."""
import ast
import contextlib
import functools
import multiprocessing
import os
import numpy as np
import openmdao.api as om
from ..core import rng_for, HarnessSkip
from ..specs.atmos import T_ref, p_ref
from .common import by_prop, spec_case  # noqa: F401

RULE = ("distinct (history step, wing, temperature, training grid) states in which the training data, their derivatives or the drag "
        "were compared with direct OpenAeroStruct analyses built outside the repository")
ASSUMPTIONS = ["OpenAeroStruct's own analysis is trusted; it is set up independently with the documented surface defaults "
               "(5 % laminar flow, maximum thickness at 37 %, viscous and wave drag on) and the documented linear viscosity",
               "a failed training run is injected as an exception out of OpenAeroStruct's linear solve; most histories replace the process pool "
               "by an in-process one, some keep the real pool",
               "surrogate between training points: the lift requested is met by the direct analysis to 4 %"]


# ------------------------------------------------------------------------------------------------- direct analysis
@functools.lru_cache(maxsize=None)
def _vlm_problem(nx, ny, surf):
    from openaerostruct.aerodynamics.aero_groups import AeroPoint
    dummy = np.zeros((nx + 1, ny + 1, 3))
    dummy[:, :, 0] = np.linspace(0, 1, nx + 1)[:, None]
    dummy[:, :, 1] = np.linspace(-1, 0, ny + 1)
    s = dict(name="w", mesh=dummy, symmetry=True, S_ref_type="projected", CL0=0.0, CD0=0.0, k_lam=0.05, t_over_c=np.array([0.12]),
             c_max_t=0.37, with_viscous=True, with_wave=True)
    s.update(dict(surf))
    s["name"] = "w"
    p = om.Problem(reports=False)
    iv = p.model.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
    for n, u in (("v", "m/s"), ("alpha", "deg"), ("Mach_number", None), ("re", "1/m"), ("rho", "kg/m**3")):
        iv.add_output(n, 1.0, units=u)
    iv.add_output("mesh", dummy, units="m")
    iv.add_output("tc", np.full(ny, 0.1))
    p.model.add_subsystem("a", AeroPoint(surfaces=[s]), promotes_inputs=["v", "alpha", "Mach_number", "re", "rho"])
    p.model.connect("mesh", ["a.w.def_mesh", "a.aero_states.w_def_mesh"])
    p.model.connect("tc", "a.w_perf.t_over_c")
    p.setup(check=False, mode="rev")
    return p


def direct(mesh, tc, M, alpha, h, dT, surf=(), totals=False, extra=False):
    """CL, CD (and d/d mesh, t/c) of one flight condition."""
    nx, ny = mesh.shape[0] - 1, mesh.shape[1] - 1
    # OpenAeroStruct's wave drag keeps (and doubles) its last derivatives below the critical Mach number: a new problem for derivatives
    p = (_vlm_problem.__wrapped__ if totals else _vlm_problem)(nx, ny, tuple(surf))
    T = float(T_ref(np.array([h]))[0]) + dT
    pr = float(p_ref(np.array([h]))[0])
    rho = pr / (287.058 * T)
    v = M * np.sqrt(1.4 * 287.058 * T)
    p.set_val("mesh", mesh)
    p.set_val("tc", tc)
    p.set_val("alpha", alpha, units="deg")
    p.set_val("Mach_number", M)
    p.set_val("rho", rho)
    p.set_val("v", v)
    p.set_val("re", rho * v / (-3.329134e-10 * h + 1.792398e-5))
    p.run_model()
    out = [float(p.get_val("a.w_perf.CL").ravel()[0]), float(p.get_val("a.w_perf.CD").ravel()[0])]
    if extra:
        out += [p.get_val("a.w_perf.Cl").copy(), p.get_val("a.aero_states.w_sec_forces", units="N").copy()]
        out += [float(p.get_val("a.w_perf." + k).ravel()[0]) for k in ("CDi", "CDv", "CDw")]
    if totals:
        J = p.compute_totals(["a.w_perf.CL", "a.w_perf.CD"], ["mesh", "tc"])
        out += [J["a.w_perf.CL", "mesh"].copy(), J["a.w_perf.CD", "mesh"].copy(), J["a.w_perf.CL", "tc"].copy(),
                J["a.w_perf.CD", "tc"].copy()]
    return out


class Direct:
    """Memoised direct analyses over training grids."""

    def __init__(self):
        self.memo = {}

    def point(self, w, M, a, h, dT, surf=(), totals=False):
        k = (w["id"], round(M, 12), round(a, 12), round(h, 9), dT, surf, totals)
        if k not in self.memo:
            self.memo[k] = direct(w["mesh"], w["tc"], M, a, h, dT, surf, totals)
        return self.memo[k]

    def grid(self, w, g, dT, surf=(), totals=False):
        return [[self.point(w, M, a, h, dT, surf, totals) for M, a, h in points(g)][i] for i in range(len(points(g)))]


def points(g):
    return [(M, a, h) for M in g["Mach_train"] for a in g["alpha_train"] for h in g["alt_train"]]


# ------------------------------------------------------------------------------------------------- instrumentation
class SerialPool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a, **k):
        return [f(x) for x in it]

    def imap(self, f, it, *a, **k):
        for x in it:
            yield f(x)

    def close(self):
        pass

    join = terminate = close


class InjectedFault(Exception):
    pass


FAULT = {"left": None}


@contextlib.contextmanager
def instrumented(serial=True):
    """Optionally run the pool in-process; arm a fault in OpenAeroStruct's linear solve."""
    from openaerostruct.aerodynamics.solve_matrix import SolveMatrix
    orig_pool, orig = multiprocessing.Pool, SolveMatrix.solve_nonlinear

    def solve(self, *a, **k):
        if FAULT["left"] is not None:
            FAULT["left"] -= 1
            if FAULT["left"] < 0:
                raise InjectedFault("analysis failed")
        return orig(self, *a, **k)
    SolveMatrix.solve_nonlinear = solve
    if serial:
        multiprocessing.Pool = SerialPool
    FAULT["left"] = None
    try:
        yield
    finally:
        multiprocessing.Pool = orig_pool
        SolveMatrix.solve_nonlinear = orig
        FAULT["left"] = None


def modules():
    try:
        from openconcept.aerodynamics.openaerostruct import drag_polar, aerostructural
    except ImportError as ex:
        raise HarnessSkip(str(ex))
    return drag_polar, aerostructural


def forget_options():
    """The data generators refuse a second set of surface options in one process; the next case starts afresh."""
    dp, ae = modules()
    for c in (getattr(dp, "VLMDataGen", None), getattr(ae, "OASDataGen", None)):
        if c is not None and "surf_options" in vars(c):
            del c.surf_options


# ------------------------------------------------------------------------------------------------- wings
def wing(rng, nx, ny, wid):
    y = np.linspace(-rng.uniform(6, 18), 0, ny + 1)
    if rng.random() < 0.5:
        y = y[0] * np.cos(np.linspace(0, np.pi / 2, ny + 1))
        y[-1] = 0.0
    ch = np.linspace(rng.uniform(1, 3), rng.uniform(3, 6), ny + 1)
    tw = np.radians(np.linspace(rng.uniform(-4, 2), rng.uniform(-1, 3), ny + 1))
    le = -y * np.tan(np.radians(rng.uniform(-5, 30)))
    f = np.linspace(0, 1, nx + 1)[:, None]
    m = np.zeros((nx + 1, ny + 1, 3))
    m[:, :, 0] = le + f * ch * np.cos(tw)
    m[:, :, 1] = y
    m[:, :, 2] = -f * ch * np.sin(tw)
    return dict(id=(wid, m.tobytes()), mesh=m, tc=rng.uniform(0.08, 0.16, ny))


def grid(rng, big=False):
    nM, na, nh = [(2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (2, 4, 1), (1, 3, 3)][int(rng.integers(6))]
    if big:
        nM, na, nh = 4, 5, 3
    lo = rng.uniform(-6, -1)
    M0 = rng.uniform(0.1, 0.3)
    return dict(Mach_train=np.linspace(M0, rng.uniform(0.5, 0.85) if not big else M0 + rng.uniform(0.3, 0.4), nM), alpha_train=np.linspace(lo, lo + rng.uniform(5, 11), na),
                alt_train=np.linspace(0, rng.uniform(5e3, 1.15e4), nh))


def surf_dict(surf):
    return {k: v for k, v in surf}


SURFS = [(), (("k_lam", 0.3),), (("c_max_t", 0.45),), (("with_wave", False),), (("with_viscous", False),), (("CD0", 0.004), ("CL0", 0.05)),
         (("k_lam", 0.0), ("with_wave", False))]


def same(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a)


def history_case(rep, seed, n, chunk=0, serial=True, steps=14):
    """Several live data generators; wings, temperatures, re-setups and failing runs in random order."""
    dp, _ = modules()
    if not hasattr(dp, "VLMDataGen"):
        raise HarnessSkip("no VLMDataGen")
    rng = rng_for("C28", "hist", seed, chunk, serial)
    for _ in range(n):
        forget_options()
        ref = Direct()
        surf = SURFS[int(rng.integers(len(SURFS)))]
        nx, ny = int(rng.choice([1, 2])), int(rng.choice([2, 3, 4]))
        g0 = grid(rng)
        insts = []
        together = rng.random() < 0.4
        k = int(rng.choice([1, 2, 3]))
        probs = []
        for i in range(k):
            g = g0 if rng.random() < 0.6 else grid(rng)
            if g is not g0 and rng.random() < 0.5:   # same sizes, other points
                g = {q: v * rng.uniform(0.8, 0.98) + (0.0 if q != "alpha_train" else 0.3) for q, v in g0.items()}
            ny_i = ny if rng.random() < 0.7 else ny + 1
            if together and i:
                p, pre = probs[0], "d%d." % i
            else:
                p, pre = om.Problem(reports=False), "d%d." % i
                probs.append(p)
            g = {q: (list(v) if rng.random() < 0.1 else v) for q, v in g.items()}
            p.model.add_subsystem("d%d" % i, dp.VLMDataGen(num_x=nx, num_y=ny_i, surf_options=surf_dict(surf), **g))
            pool = [wing(rng, nx, ny_i, (i, c)) for c in range(2)]
            insts.append(dict(p=p, pre=pre, g={q: np.asarray(v) for q, v in g.items()}, pool=pool, w=None, dT=0.0, ny=ny_i))
        # wings are shared between instances of the same size
        for a in insts:
            if a["ny"] == insts[0]["ny"]:
                a["pool"] = insts[0]["pool"]
        for p in probs:
            p.setup(check=False)
        with instrumented(serial):
            for a in insts:
                set_wing(a, a["pool"][0], 0.0)
            log = []
            for s in range(steps):
                op = str(rng.choice(["wing", "wing", "toverc", "temp", "same", "partials", "fail", "setup"], p=[.2, .1, .12, .12, .12, .18, .1, .06]))
                a = insts[int(rng.integers(len(insts)))]
                log.append((op, insts.index(a)))
                if op == "wing":
                    set_wing(a, a["pool"][int(rng.integers(len(a["pool"])))], a["dT"])
                elif op == "toverc":
                    w = dict(a["w"])
                    w["tc"] = rng.uniform(0.08, 0.16, a["ny"])
                    w["id"] = (w["id"][0], w["id"][1], w["tc"].tobytes())
                    if rng.random() < 0.4:
                        a["pool"] = a["pool"] + [w]
                    set_wing(a, w, a["dT"])
                elif op == "temp":
                    set_wing(a, a["w"], float(rng.choice([0.0, 10.0, -12.5])))
                elif op == "setup":
                    a["p"].setup(check=False)
                    for b in insts:
                        if b["p"] is a["p"]:
                            set_wing(b, b["w"], b["dT"])
                elif op == "fail":
                    keep = a["w"], a["dT"]
                    w2 = a["pool"][int(rng.integers(len(a["pool"])))]
                    if rng.random() < 0.5:
                        w2 = wing(rng, nx, a["ny"], ("f", s))
                    set_wing(a, w2, a["dT"])
                    FAULT["left"] = int(rng.integers(0, len(points(a["g"])))) if serial else 0
                    try:
                        a["p"].run_model()
                    except Exception as ex:
                        if "analysis failed" not in str(ex):
                            raise
                        rep.event("failed_training_runs")
                    FAULT["left"] = None
                    if rng.random() < 0.5:
                        set_wing(a, *keep)
                    log[-1] = ("fail", insts.index(a), "same wing again" if a["w"] is w2 else "back to the previous wing")
                a["p"].run_model()
                for b in insts:
                    if b["p"] is a["p"]:
                        want = np.array([ref.point(b["w"], *q, b["dT"], surf)[:2] for q in points(b["g"])])
                        for c, o in enumerate(("CL_train", "CD_train")):
                            rep.close("VLMDataGen:" + o, b["p"].get_val(b["pre"] + o).ravel(), want[:, c], rtol=1e-8, scale=0.02 if c else 0.5,
                                      history=log[-8:], instances=len(insts), together=together, surf_options=surf)
                        rep.evaluated((b["w"]["id"], b["dT"], len(log), chunk, tuple(map(str, log))))
                rep.event("history_steps")
                rep.event("op:" + op)
                if op == "partials":
                    partials(rep, a, ref, surf, log)
        rep.sample(history=[list(map(str, q)) for q in log], instances=len(insts), serial=serial)


def set_wing(a, w, dT):
    a["w"], a["dT"] = w, dT
    a["p"].set_val(a["pre"] + "ac|geom|wing|OAS_mesh", w["mesh"], units="m")
    a["p"].set_val(a["pre"] + "ac|geom|wing|toverc", w["tc"])
    a["p"].set_val(a["pre"] + "fltcond|TempIncrement", dT, units="degC")


def partials(rep, a, ref, surf, log):
    """Every derivative of one data generator against the direct analyses' own totals."""
    p = a["p"]
    i = a["pre"][:-1]
    p.model.run_linearize()
    comp = getattr(p.model, i)
    pts = points(a["g"])
    d = [ref.point(a["w"], *q, a["dT"], surf, True) for q in pts]
    for c, o in enumerate(("CL_train", "CD_train")):
        for wrt, want in (("ac|geom|wing|OAS_mesh", np.array([q[2 + c].ravel() for q in d])), ("ac|geom|wing|toverc", np.array([q[4 + c].ravel() for q in d]))):
            try:
                got = comp._jacobian[o, wrt]
            except KeyError:
                rep.skip("no partial %s/%s" % (o, wrt))
                continue
            got = got.toarray() if hasattr(got, "toarray") else np.asarray(got)
            rep.close("VLMDataGen:d%s/d%s" % (o, wrt.split("|")[-1]), got, want, rtol=1e-6, scale=max(np.max(np.abs(want)), 1e-3), history=log[-8:])
        # temperature: central difference of the direct analysis at two grid points
        for k in {0, len(pts) - 1}:
            fd = (direct(a["w"]["mesh"], a["w"]["tc"], *pts[k], a["dT"] + 1.0, surf)[c] - direct(a["w"]["mesh"], a["w"]["tc"], *pts[k], a["dT"] - 1.0, surf)[c]) / 2
            got = np.asarray(comp._jacobian[o, "fltcond|TempIncrement"]).ravel()[k]
            rep.close("VLMDataGen:d%s/dTempIncrement" % o, got, fd, rtol=1e-3, atol=2e-9, history=log[-8:])
    rep.event("derivative_matrices", 4)


# ------------------------------------------------------------------------------------------------- drag polar
def rotate(mesh, twist):
    from openaerostruct.geometry.geometry_mesh_transformations import Rotate
    p = om.Problem(reports=False)
    p.model.add_subsystem("r", Rotate(val=np.zeros(mesh.shape[1]), mesh_shape=mesh.shape, symmetry=True), promotes=["*"])
    p.setup(check=False)
    p.set_val("in_mesh", mesh)
    p.set_val("twist", twist, units="deg")
    p.run_model()
    return p.get_val("mesh").copy()


def bspline(cp, n):
    if len(cp) == 1:
        return np.full(n, cp[0])
    p = om.Problem(reports=False)
    c = om.SplineComp(method="bsplines", x_interp_val=np.linspace(0, 1, n), num_cp=len(cp), interp_options={"order": min(len(cp), 4)})
    p.model.add_subsystem("s", c, promotes=["*"])
    c.add_spline(y_cp_name="cp", y_interp_name="y")
    p.setup(check=False)
    p.set_val("cp", cp)
    p.run_model()
    return p.get_val("y").ravel().copy()


def polar_geometry(rng, geo, o):
    """Random values of the geometry inputs and the mesh and t/c they stand for."""
    from ..specs.meshes import trap_mesh, _secmesh, spanwise, cosfrac
    v = {}
    nx, ny = o["num_x"], o["num_y"]
    if geo == "trapezoidal":
        v = {"ac|geom|wing|S_ref": (rng.uniform(60, 400), "m**2"), "ac|geom|wing|AR": (rng.uniform(6, 14), None),
             "ac|geom|wing|taper": (rng.uniform(0.2, 1), None), "ac|geom|wing|c4sweep": (rng.uniform(-5, 30), "deg"),
             "ac|geom|wing|twist": (rng.uniform(-4, 3, o["num_twist"]), "deg"), "ac|geom|wing|toverc": (rng.uniform(0.08, 0.16, 2), None)}
        m = trap_mesh(*(v["ac|geom|wing|" + k][0] for k in ("S_ref", "AR", "taper", "c4sweep")), nx, ny)
        tw = bspline(v["ac|geom|wing|twist"][0], ny + 1)
        t = v["ac|geom|wing|toverc"][0]
        tc = t[0] + (t[1] - t[0]) * (np.arange(ny) + 0.5) / ny
    elif geo == "section":
        n = o["num_sections"]
        y = -np.cumsum(rng.uniform(4, 8, n - 1))[::-1]
        ch = np.sort(rng.uniform(1, 7, n))
        le = np.append(-y * np.tan(np.radians(rng.uniform(0, 30))), 0.0) + rng.uniform(-0.2, 0.2, n)
        v = {"ac|geom|wing|S_ref": (rng.uniform(60, 400), "m**2"), "ac|geom|wing|x_LE_sec": (le, "m"), "ac|geom|wing|y_sec": (y, "m"),
             "ac|geom|wing|chord_sec": (ch, "m"), "ac|geom|wing|toverc": (rng.uniform(0.08, 0.16, n), None), "ac|geom|wing|twist": (rng.uniform(-4, 3, n), "deg")}
        mo = dict(num_sections=n, num_y=ny, num_x=nx)
        m = _secmesh({"S": v["ac|geom|wing|S_ref"][0], "x_LE_sec": le, "y_sec": y, "chord_sec": ch}, mo)["mesh"]
        tw = spanwise(v["ac|geom|wing|twist"][0], mo, cosfrac)
        t = spanwise(v["ac|geom|wing|toverc"][0], mo, cosfrac)
        tc = (t[1:] + t[:-1]) / 2
    else:
        w = wing(rng, nx, ny, 0)
        S = 2 * np.sum(0.5 * np.diff(w["mesh"][0, :, 1]) * ((w["mesh"][-1] - w["mesh"][0])[1:, 0] + (w["mesh"][-1] - w["mesh"][0])[:-1, 0]))
        v = {"ac|geom|wing|S_ref": (S, "m**2"), "ac|geom|wing|OAS_mesh": (w["mesh"], "m"), "ac|geom|wing|toverc": (w["tc"], None)}
        return v, w["mesh"], w["tc"]
    return v, rotate(m, tw), tc


def solver(m, n):
    m.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=40, iprint=-1, atol=1e-10, rtol=1e-13, stall_limit=3, stall_tol=1e-9, stall_tol_type="abs")
    m.linear_solver = om.DirectSolver()


def polar_case(rep, seed, n, chunk=0, serial=True):
    dp, _ = modules()
    if not hasattr(dp, "VLMDragPolar"):
        raise HarnessSkip("no VLMDragPolar")
    rng = rng_for("C28", "polar", seed, chunk, serial)
    for _ in range(n):
        forget_options()
        geo = str(rng.choice(["trapezoidal", "section", "mesh"]))
        nn = int(rng.choice([1, 3, 5, 7]))
        o = dict(num_nodes=nn, num_x=int(rng.choice([1, 2])), num_y=int(rng.choice([3, 4, 5])))
        if geo != "trapezoidal" or rng.random() < 0.5:
            o["geometry"] = geo
        if geo == "trapezoidal":
            o["num_twist"] = int(rng.choice([2, 3, 4]))
        if geo == "section":
            o["num_sections"] = int(rng.choice([2, 3]))
            if rng.random() < 0.5:
                o["num_y"] = [int(q) for q in rng.integers(2, 4, o["num_sections"] - 1)]
        vec = bool(rng.random() < 0.5)
        if vec or rng.random() < 0.3:
            o["vec_CD_nonwing"] = vec
        surf = SURFS[int(rng.integers(len(SURFS)))]
        if surf or rng.random() < 0.5:
            o["surf_options"] = surf_dict(surf)
        g = grid(rng, True)
        p = om.Problem(reports=False)
        p.model.add_subsystem("polar", dp.VLMDragPolar(**o, **g), promotes=["*"])
        solver(p.model, nn)
        p.setup(check=False)
        with instrumented(serial):
            v, mesh, tc = polar_geometry(rng, geo, o)
            for step in range(int(rng.integers(1, 4))):
                if step and rng.random() < 0.6:
                    v, mesh, tc = polar_geometry(rng, geo, o)
                    rep.event("wing_changed")
                dT = float(rng.choice([0.0, 0.0, 10.0, -15.0]))
                pick = [(int(rng.integers(len(g["Mach_train"]))), int(rng.integers(len(g["alpha_train"]))), int(rng.integers(len(g["alt_train"])))) for _ in range(nn)]
                cond = [(g["Mach_train"][a], g["alpha_train"][b], g["alt_train"][c]) for a, b, c in pick]
                D = np.array([direct(mesh, tc, *c, dT, surf)[:2] for c in cond])
                nw = rng.uniform(0, 0.03, nn if vec else 1)
                q = rng.uniform(2e3, 2e4, nn)
                for k, (val, u) in v.items():
                    p.set_val(k, val, units=u)
                p.set_val("fltcond|TempIncrement", dT, units="degC")
                p.set_val("fltcond|M", [c[0] for c in cond])
                p.set_val("fltcond|h", [c[2] for c in cond], units="m")
                p.set_val("fltcond|q", q, units="Pa")
                p.set_val("fltcond|CL", D[:, 0])
                p.set_val("ac|aero|CD_nonwing", nw)
                p.run_model()
                S = v["ac|geom|wing|S_ref"][0]
                info = dict(options={k: x for k, x in o.items()}, grid=g, step=step, dT=dT)
                rep.close("VLMDragPolar(%s):drag at training points" % geo, p.get_val("drag", units="N"), q * S * (D[:, 1] + nw), rtol=2e-7, **info)
                try:
                    al = p.get_val("alpha_bal.alpha", units="deg")
                except KeyError:
                    al = None
                if al is not None:
                    rep.close("VLMDragPolar(%s):angle of attack" % geo, al, [c[1] for c in cond], rtol=1e-6, atol=1e-6, **info)
                if geo != "mesh":
                    rep.close("VLMDragPolar(%s):twisted mesh" % geo, p.get_val("twisted_mesh", units="m"), mesh, rtol=1e-9, atol=1e-8, **info)
                rep.evaluated((geo, repr(o), mesh.tobytes(), q.tobytes()))
                rep.event("polar_nodes_on_training_points", nn)
                rep.event("geometry:" + geo)
                # away from the training points the requested lift is still met by the direct analysis
                M = rng.uniform(g["Mach_train"][0], min(0.6, g["Mach_train"][-1]), nn)
                h = rng.uniform(g["alt_train"][0], g["alt_train"][-1], nn)
                lo, hi = g["alpha_train"][0], g["alpha_train"][-1]
                aa = rng.uniform(lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo), nn)
                D = np.array([direct(mesh, tc, *c, dT, surf)[:2] for c in zip(M, aa, h)])
                p.set_val("fltcond|M", M)
                p.set_val("fltcond|h", h, units="m")
                p.set_val("fltcond|CL", D[:, 0])
                p.run_model()
                rep.close("VLMDragPolar(%s):drag between training points" % geo, p.get_val("drag", units="N") / (q * S) - nw, D[:, 1], rtol=0.06, atol=1.5e-3, **info)
                if al is not None:
                    rep.close("VLMDragPolar(%s):angle of attack between training points" % geo, p.get_val("alpha_bal.alpha", units="deg"), aa, rtol=0, atol=0.5, **info)
                if rng.random() < 0.4:   # two temperatures / the drag scales with q and CD_nonwing adds exactly
                    d0 = p.get_val("drag", units="N").copy()
                    p.set_val("fltcond|q", 2 * q, units="Pa")
                    p.set_val("ac|aero|CD_nonwing", nw + 0.01)
                    p.run_model()
                    rep.close("VLMDragPolar:nonwing drag adds exactly", p.get_val("drag", units="N"), 2 * d0 + 2 * q * S * 0.01, rtol=1e-9, **info)
        rep.sample(options=repr(o), grid=g)


# ------------------------------------------------------------------------------------------------- VLM and maximum lift
def vlm_case(rep, seed, n, chunk=0):
    dp, _ = modules()
    rng = rng_for("C28", "vlm", seed, chunk)
    from openconcept.aerodynamics.openaerostruct import VLM, CLmaxCriticalSectionVLM
    for _ in range(n):
        nx, ny = int(rng.choice([1, 2, 3])), int(rng.choice([2, 4, 6]))
        w = wing(rng, nx, ny, 0)
        surf = SURFS[int(rng.integers(len(SURFS)))]
        M, a, h, dT = rng.uniform(0.1, 0.84), rng.uniform(-4, 9), rng.uniform(0, 1.19e4), float(rng.choice([0.0, 12.0, -20.0]))
        kw = dict(num_x=nx, num_y=ny)
        if surf or rng.random() < 0.5:
            kw["surf_options"] = surf_dict(surf)
        p = om.Problem(reports=False)
        p.model.add_subsystem("v", VLM(**kw), promotes=["*"])
        p.setup(check=False)
        p.set_val("ac|geom|wing|OAS_mesh", w["mesh"], units="m")
        p.set_val("ac|geom|wing|toverc", w["tc"])
        p.set_val("fltcond|M", M)
        p.set_val("fltcond|alpha", a, units="deg")
        p.set_val("fltcond|h", h, units="m")
        p.set_val("fltcond|TempIncrement", dT, units="degC")
        p.run_model()
        want = direct(w["mesh"], w["tc"], M, a, h, dT, surf, extra=True)
        info = dict(mesh_shape=w["mesh"].shape, M=M, alpha=a, h=h, dT=dT, surf_options=surf)
        for k, o in enumerate(("fltcond|CL", "fltcond|CD", "sectional_CL", "panel_forces", "fltcond|CDi", "fltcond|CDv", "fltcond|CDw")):
            rep.close("VLM:" + o, p.get_val(o), want[k], rtol=1e-8, scale=np.max(np.abs(want[k])) if np.size(want[k]) > 1 else None, atol=1e-12, **info)
        if not surf_dict(surf).get("CD0"):
            rep.close("VLM:drag components add up", p.get_val("fltcond|CD"), p.get_val("fltcond|CDi") + p.get_val("fltcond|CDv") + p.get_val("fltcond|CDw"), rtol=1e-9, **info)
        rep.evaluated(("vlm", w["mesh"].tobytes(), M, a, h))
        rep.event("direct_vlm_points")
        # maximum lift
        vec = bool(rng.random() < 0.5)
        if vec or rng.random() < 0.5:
            kw["vec_Cl_max"] = vec
        rho = 200
        if rng.random() < 0.5:
            rho = kw["rho"] = int(rng.choice([100, 400, 1000]))
        p = om.Problem(reports=False)
        p.model.add_subsystem("m", CLmaxCriticalSectionVLM(**kw), promotes=["*"])
        p.setup(check=False)
        p.set_val("ac|geom|wing|OAS_mesh", w["mesh"], units="m")
        p.set_val("ac|geom|wing|toverc", w["tc"])
        Mm = rng.uniform(0.1, 0.35)
        p.set_val("fltcond|M", Mm)
        p.set_val("fltcond|h", h, units="m")
        p.set_val("fltcond|TempIncrement", dT, units="degC")
        lim = rng.uniform(1.0, 2.2, ny if vec else 1)
        p.set_val("ac|aero|airfoil_Cl_max", lim)
        try:
            p.run_model()
        except om.AnalysisError:
            rep.skip("maximum-lift solve did not converge")
            continue
        try:
            alpha = float(p.get_val("sectional_CL_balance.alpha", units="deg").ravel()[0])
        except KeyError:
            # find the angle from the lift itself
            f = lambda x: direct(w["mesh"], w["tc"], Mm, x, h, dT, surf)[0] - float(p.get_val("CL_max").ravel()[0])  # noqa: E731
            from scipy.optimize import brentq
            alpha = brentq(f, -20, 60, xtol=1e-10)
        d = direct(w["mesh"], w["tc"], Mm, alpha, h, dT, surf, extra=True)
        gap = d[2].ravel() - lim
        if abs(np.max(gap)) > 0.3:
            p.model.run_apply_nonlinear()
            if np.max(np.abs(p.model._residuals.asarray())) > 1e-5:
                rep.skip("maximum-lift solve did not converge")
                continue
        ks = np.max(gap) + np.log(np.sum(np.exp(rho * (gap - np.max(gap))))) / rho
        info = dict(mesh_shape=w["mesh"].shape, vec=vec, rho=rho, alpha=alpha, limits=lim, surf_options=surf)
        rep.close("CLmaxCriticalSectionVLM:CL_max is the wing's lift at the critical angle", p.get_val("CL_max"), d[0], rtol=1e-6, **info)
        rep.close("CLmaxCriticalSectionVLM:aggregated section margin is zero", ks, 0.0, rtol=0, atol=1e-5, **info)
        rep.require("CLmaxCriticalSectionVLM:no section beyond its limit, the critical one at it",
                    -np.log(ny) / rho - 1e-5 <= np.max(gap) <= 1e-5, max_gap=np.max(gap), **info)
        rep.evaluated(("clmax", w["mesh"].tobytes(), lim.tobytes()))
        rep.event("critical_sections_solved")


# ------------------------------------------------------------------------------------------------- aerostructural
AE_IN = {"ac|geom|wing|S_ref": ("m**2", 1), "ac|geom|wing|AR": (None, 1), "ac|geom|wing|taper": (None, 1), "ac|geom|wing|c4sweep": ("deg", 1),
         "ac|geom|wing|twist": ("deg", "num_twist"), "ac|geom|wing|toverc": (None, "num_toverc"), "ac|geom|wing|skin_thickness": ("m", "num_skin"),
         "ac|geom|wing|spar_thickness": ("m", "num_spar")}


def ae_wing(rng, o):
    return {"ac|geom|wing|S_ref": rng.uniform(60, 300), "ac|geom|wing|AR": rng.uniform(7, 12), "ac|geom|wing|taper": rng.uniform(0.25, 0.9),
            "ac|geom|wing|c4sweep": rng.uniform(0, 28), "ac|geom|wing|twist": rng.uniform(-3, 3, o["num_twist"]),
            "ac|geom|wing|toverc": rng.uniform(0.09, 0.15, o["num_toverc"]), "ac|geom|wing|skin_thickness": rng.uniform(0.004, 0.02, o["num_skin"]),
            "ac|geom|wing|spar_thickness": rng.uniform(0.003, 0.02, o["num_spar"])}


def ae_direct(ae, o, w, conds, dT, surf, cache, lf=1.0):
    """The repository's own coupled analysis, run one condition at a time in a fresh problem."""
    key = (repr(sorted((k, np.asarray(v).tobytes()) for k, v in w.items())), dT, surf)
    out = []
    for c in conds:
        if (key, c) not in cache:
            p = om.Problem(reports=False)
            p.model.add_subsystem("a", ae.Aerostruct(**o, surf_options=surf_dict(surf)), promotes=["*"])
            for k, v in w.items():
                p.model.set_input_defaults(k, val=v, units=AE_IN[k][0])
            p.model.set_input_defaults("fltcond|TempIncrement", val=dT, units="degC")
            p.setup(check=False)
            for s in p.model.system_iter(recurse=True):
                if s.nonlinear_solver is not None:
                    s.nonlinear_solver.options["iprint"] = -1
            p.set_val("fltcond|M", c[0])
            p.set_val("fltcond|alpha", c[1], units="deg")
            p.set_val("fltcond|h", c[2], units="m")
            if lf != 1.0:
                p.set_val("load_factor", lf)
            p.run_model()
            cache[key, c] = [float(p.get_val(k, units=u).ravel()[0]) for k, u in
                             (("fltcond|CL", None), ("fltcond|CD", None), ("failure", None), ("ac|weights|W_wing", "kg"))]
        out.append(cache[key, c])
    return np.array(out)


def ae_case(rep, seed, n, chunk=0, serial=True, steps=4):
    """Aerostructural polar: surrogate against the coupled analysis at training points, through histories with failing runs."""
    _, ae = modules()
    if not hasattr(ae, "AerostructDragPolar"):
        raise HarnessSkip("no AerostructDragPolar")
    rng = rng_for("C28", "ae", seed, chunk, serial)
    for _ in range(n):
        forget_options()
        o = dict(num_x=1, num_y=int(rng.choice([2, 3])), num_twist=int(rng.choice([1, 2, 3])), num_toverc=int(rng.choice([1, 2])), num_skin=int(rng.choice([1, 2])),
                 num_spar=int(rng.choice([1, 2])))
        for k in ("num_twist", "num_toverc", "num_skin", "num_spar"):
            o[k] = max(2, o[k])
        o["num_y"] = max(3, o["num_y"])
        surf = () if rng.random() < 0.6 else (("CD0", float(np.round(rng.uniform(0, 0.012), 4))), ("wing_weight_ratio", 1.4))
        lo = rng.uniform(-4, -1)
        g = dict(Mach_train=np.linspace(0.3, rng.uniform(0.55, 0.8), 2), alpha_train=np.linspace(lo, lo + rng.uniform(4, 7), 3),
                 alt_train=np.array([0.0, rng.uniform(5e3, 1e4)]))
        nn = int(rng.choice([1, 2, 4]))
        cache = {}
        p = om.Problem(reports=False)
        kw = dict(surf_options=surf_dict(surf)) if surf else {}
        p.model.add_subsystem("polar", ae.AerostructDragPolar(num_nodes=nn, **o, **g, **kw), promotes=["*"])
        solver(p.model, nn)
        p.setup(check=False)
        w = ae_wing(rng, o)
        pool = [w]
        dT = 0.0
        log = []
        with instrumented(serial):
            for s in range(steps):
                op = str(rng.choice(["new", "old", "one", "temp", "fail"], p=[.1, .15, .4, .15, .2])) if s else "new"
                if op == "new":
                    w = ae_wing(rng, o)
                    pool.append(w)
                elif op == "old":
                    w = pool[int(rng.integers(len(pool)))]
                elif op == "one":       # a single geometry variable changes
                    k = str(rng.choice(list(AE_IN)))
                    w = dict(w)
                    w[k] = ae_wing(rng, o)[k]
                    op = "one:" + k
                elif op == "temp":
                    dT = float(rng.choice([0.0, 15.0, -10.0]))
                cl = points(g)
                if op == "fail":
                    w = ae_wing(rng, o)
                    put(p, w, dT, g, [cl[0]] * nn, np.full(nn, 0.2), np.full(nn, 1e4), 0.01)
                    FAULT["left"] = int(rng.integers(0, 12)) if serial else 0
                    try:
                        p.run_model()
                    except Exception as ex:
                        if "analysis failed" not in str(ex):
                            raise
                        rep.event("failed_training_runs")
                    FAULT["left"] = None
                    if rng.random() < 0.3:
                        w = pool[-1]
                log.append(op)
                cond = [cl[int(rng.integers(len(cl)))] for _ in range(nn)]
                D = ae_direct(ae, o, w, cond, dT, surf, cache)
                q = rng.uniform(3e3, 1.5e4, nn)
                nw = float(rng.uniform(0, 0.03))
                put(p, w, dT, g, cond, D[:, 0], q, nw)
                p.run_model()
                info = dict(options=o, grid=g, history=log, dT=dT, surf_options=surf)
                S = w["ac|geom|wing|S_ref"]
                rep.close("AerostructDragPolar:drag at training points", p.get_val("drag", units="N"), q * S * (D[:, 1] + nw), rtol=2e-6, **info)
                rep.close("AerostructDragPolar:failure at training points", p.get_val("failure"), D[:, 2], rtol=1e-5, atol=1e-6, **info)
                rep.close("AerostructDragPolar:wing weight", p.get_val("ac|weights|W_wing", units="kg"), D[0, 3], rtol=1e-9, **info)
                try:
                    rep.close("AerostructDragPolar:angle of attack", p.get_val("alpha_bal.alpha", units="deg"), [c[1] for c in cond], rtol=1e-5, atol=1e-5, **info)
                except KeyError:
                    pass
                rep.event("op:" + op.split(":")[0])
                rep.event("aerostructural_nodes", nn)
                rep.evaluated(("ae", repr(o), S, tuple(log), repr(cond)))
                if rng.random() < 0.3:
                    ae_totals(rep, p, ae, o, w, g, cond, dT, surf, cache, info)
        # the exact (surrogate-free) polar at the same conditions
        if rng.random() < 0.6 and hasattr(ae, "AerostructDragPolarExact"):
            n2 = int(rng.choice([1, 2]))
            cond = [cl[int(rng.integers(len(cl)))] for _ in range(n2)]
            D = ae_direct(ae, o, w, cond, dT, surf, cache)
            q, nw = rng.uniform(3e3, 1.5e4, n2), float(rng.uniform(0, 0.03))
            e = om.Problem(reports=False)
            e.model.add_subsystem("polar", ae.AerostructDragPolarExact(num_nodes=n2, **o, surf_options=surf_dict(surf)), promotes=["*"])
            solver(e.model, n2)
            put(None, w, dT, g, cond, D[:, 0], q, nw, e.model)
            e.setup(check=False)
            for sub in e.model.system_iter(recurse=True):
                if sub.nonlinear_solver is not None:
                    sub.nonlinear_solver.options["iprint"] = -1
            e.run_model()
            rep.close("AerostructDragPolarExact:drag", e.get_val("drag", units="N"), q * S_of(w) * (D[:, 1] + nw), rtol=1e-5, options=o, conditions=cond)
            rep.close("AerostructDragPolarExact:failure", e.get_val("failure"), D[:, 2], rtol=1e-4, atol=1e-5, options=o, conditions=cond)
            rep.close("AerostructDragPolarExact:wing weight", e.get_val("ac|weights|W_wing", units="kg"), D[0, 3], rtol=1e-9, options=o)
            rep.event("exact_polar_nodes", n2)
        rep.sample(options=o, grid=g, history=log)


def S_of(w):
    return w["ac|geom|wing|S_ref"]


def put(p, w, dT, g, cond, CL, q, nw, model=None):
    """Set the inputs of a polar (before its setup, when its model is given)."""
    def put1(k, v, units=None):
        if model is None:
            p.set_val(k, v, units=units)
        else:
            model.set_input_defaults(k, val=np.asarray(v), units=units)
    for k, v in w.items():
        put1(k, v, AE_IN[k][0])
    put1("fltcond|TempIncrement", dT, "degC")
    put1("fltcond|M", [c[0] for c in cond])
    put1("fltcond|h", [c[2] for c in cond], "m")
    put1("fltcond|q", q, "Pa")
    put1("fltcond|CL", CL)
    put1("ac|aero|CD_nonwing", nw)


def ae_totals(rep, p, ae, o, w, g, cond, dT, surf, cache, info):
    """d(wing weight) and d(drag at fixed lift) with respect to one geometry variable, against central differences of the direct analysis."""
    k = "ac|geom|wing|AR"
    J = p.compute_totals(of=["ac|weights|W_wing", "drag"], wrt=[k, "ac|aero|CD_nonwing"])
    s = 1e-3 * abs(float(w[k]))
    d = []
    for q in (1, -1):
        w2 = dict(w)
        w2[k] = w[k] + q * s
        d.append(ae_direct(ae, o, w2, cond, dT, surf, cache))
    rep.close("AerostructDragPolar:dW_wing/dAR", J["ac|weights|W_wing", k].ravel()[0], (d[0][0, 3] - d[1][0, 3]) / (2 * s), rtol=1e-3, **info)
    qs = p.get_val("fltcond|q", units="Pa") * S_of(w)
    rep.close("AerostructDragPolar:ddrag/dCD_nonwing", J["drag", "ac|aero|CD_nonwing"].ravel(), qs, rtol=1e-7, **info)
    # at fixed CL: dD = qS (dCD - CD_alpha/CL_alpha dCL); the slopes from neighbouring direct runs
    slope = []
    for c in cond:
        u = ae_direct(ae, o, w, [(c[0], c[1] + 1e-3, c[2]), (c[0], c[1] - 1e-3, c[2])], dT, surf, cache)
        slope.append((u[0, 1] - u[1, 1]) / (u[0, 0] - u[1, 0]))
    dCL, dCD = (d[0][:, 0] - d[1][:, 0]) / (2 * s), (d[0][:, 1] - d[1][:, 1]) / (2 * s)
    want = qs * (dCD - np.array(slope) * dCL)
    # the surrogate's own slope differs from the direct one (coarse grid), so only its share is loosened
    rep.close("AerostructDragPolar:ddrag/dAR", J["drag", k].ravel(), want, rtol=1e-2, atol=np.max(qs) * 0.4 * np.max(np.abs(dCL)) * 0.1 + 1e-3, **info)
    rep.event("aerostructural_totals")


def rigid_case(rep, seed, n, chunk=0):
    """A nearly rigid wing's coupled analysis is the plain vortex-lattice analysis of the same planform."""
    _, ae = modules()
    from ..specs.meshes import trap_mesh
    rng = rng_for("C28", "rigid", seed, chunk)
    for _ in range(n):
        o = dict(num_x=int(rng.choice([1, 2])), num_y=int(rng.choice([3, 4, 6])), num_twist=int(rng.choice([2, 3])), num_toverc=int(rng.choice([2, 3])), num_skin=2, num_spar=2)
        w = ae_wing(rng, o)
        surf = (("E", 1e17), ("G", 1e17), ("CD0", 0.0))
        c = (rng.uniform(0.2, 0.75), rng.uniform(-2, 6), rng.uniform(0, 1.1e4))
        dT = float(rng.choice([0.0, 15.0]))
        D = ae_direct(ae, o, w, [c], dT, surf, {})[0]
        m = trap_mesh(w["ac|geom|wing|S_ref"], w["ac|geom|wing|AR"], w["ac|geom|wing|taper"], w["ac|geom|wing|c4sweep"], o["num_x"], o["num_y"])
        m = rotate(m, bspline(w["ac|geom|wing|twist"], o["num_y"] + 1))
        V = direct(m, bspline(w["ac|geom|wing|toverc"], o["num_y"]), *c, dT, (("c_max_t", 0.38),))
        rep.close("Aerostruct:rigid wing lift", D[0], V[0], rtol=1e-5, atol=1e-6, options=o, wing=w, condition=c)
        rep.close("Aerostruct:rigid wing drag", D[1], V[1], rtol=1e-5, atol=1e-7, options=o, wing=w, condition=c)
        rep.require("Aerostruct:rigid wing has weight", D[3] > 0, got=D[3])
        # structural mass is linear in the weight ratio and in density
        D2 = ae_direct(ae, o, w, [c], dT, (("E", 1e17), ("G", 1e17), ("CD0", 0.003), ("wing_weight_ratio", 2.5)), {})[0]
        rep.close("Aerostruct:weight ratio", D2[3], 2 * D[3], rtol=1e-9, options=o)
        rep.close("Aerostruct:CD0 adds", D2[1] - D[1], 0.003, rtol=1e-4, options=o)
        rep.evaluated(("rigid", repr(o), repr(c)))
        rep.event("rigid_limits")


@functools.lru_cache(None)
def sc2_0612():
    """The 10-60 % part of the NASA SC2-0612 aerofoil, from OpenAeroStruct's own documentation."""
    import openaerostruct
    f = os.path.join(os.path.dirname(openaerostruct.__file__), "docs", "wingbox_mpt_opt_example.py")
    if not os.path.exists(f):
        raise HarnessSkip("OpenAeroStruct's wingbox example is not installed")
    out = {}
    for node in ast.parse(open(f).read()).body:
        name = getattr(getattr(node, "targets", [None])[0], "id", None)
        if name in ("upper_x", "lower_x", "upper_y", "lower_y"):
            out[name] = np.array(ast.literal_eval(node.value.args[0]), dtype="complex128")
    return out


def oas_coupled(o, w, c, dT, surf, lf=1.0):
    """OpenAeroStruct's standard coupled analysis of the wing the repository documents, assembled without the repository."""
    from openaerostruct.integration.aerostruct_groups import AerostructGeometry, AerostructPoint
    from ..specs.meshes import trap_mesh
    a = sc2_0612()
    ny = o["num_y"] + 1
    mesh = trap_mesh(w["ac|geom|wing|S_ref"], w["ac|geom|wing|AR"], w["ac|geom|wing|taper"], w["ac|geom|wing|c4sweep"], o["num_x"], o["num_y"])
    d = dict(name="wing", symmetry=True, S_ref_type="projected", mesh=mesh, fem_model_type="wingbox", data_x_upper=a["upper_x"], data_x_lower=a["lower_x"],
             data_y_upper=a["upper_y"], data_y_lower=a["lower_y"], twist_cp=np.array(w["ac|geom|wing|twist"]), t_over_c_cp=np.array(w["ac|geom|wing|toverc"]),
             skin_thickness_cp=np.array(w["ac|geom|wing|skin_thickness"]), spar_thickness_cp=np.array(w["ac|geom|wing|spar_thickness"]),
             original_wingbox_airfoil_t_over_c=0.12, CL0=0.0, CD0=0.0078, k_lam=0.05, c_max_t=0.38, with_viscous=True, with_wave=True, E=73.1e9,
             G=73.1e9 / 2 / 1.33, mrho=2.78e3, fem_origin=0.35, wing_weight_ratio=1.25, strength_factor_for_upper_skin=1.0, struct_weight_relief=True,
             distributed_fuel_weight=False, exact_failure_constraint=False)
    d["yield"] = 420e6 / 1.5
    d.update(surf_dict(surf))
    M, alpha, h = c
    T = float(T_ref(np.array([h]))[0]) + dT
    rho = float(p_ref(np.array([h]))[0]) / (287.058 * T)
    snd = np.sqrt(1.4 * 287.058 * T)
    p = om.Problem(reports=False)
    iv = p.model.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
    for k, u, x in (("v", "m/s", M * snd), ("alpha", "deg", alpha), ("Mach_number", None, M), ("re", "1/m", rho * M * snd / (-3.329134e-10 * h + 1.792398e-5)),
                    ("rho", "kg/m**3", rho), ("speed_of_sound", "m/s", snd), ("W0", "kg", 1.0), ("load_factor", None, lf), ("empty_cg", "m", np.zeros(3))):
        iv.add_output(k, x, units=u)
    p.model.add_subsystem("wing", AerostructGeometry(surface=d))
    p.model.add_subsystem("pt", AerostructPoint(surfaces=[d], internally_connect_fuelburn=False),
                          promotes_inputs=["v", "alpha", "Mach_number", "re", "rho", "speed_of_sound", "W0", "load_factor", "empty_cg"])
    if d["struct_weight_relief"]:
        p.model.connect("load_factor", "pt.coupled.load_factor")
        p.model.connect("wing.element_mass", "pt.coupled.wing.element_mass")
    for k in ("local_stiff_transformed", "nodes", "mesh"):
        p.model.connect("wing." + k, "pt.coupled.wing." + k)
    for k in ("nodes", "t_over_c", "spar_thickness", "A_enc", "Qz", "J", "htop", "hbottom", "hfront", "hrear"):
        p.model.connect("wing." + k, "pt.wing_perf." + k)
    p.model.connect("wing.cg_location", "pt.total_perf.wing_cg_location")
    p.model.connect("wing.structural_mass", "pt.total_perf.wing_structural_mass")
    p.model.connect("pt.fuelburn", "pt.total_perf.L_equals_W.fuelburn")
    p.setup(check=False)
    for s in p.model.system_iter(recurse=True):
        if s.nonlinear_solver is not None:
            s.nonlinear_solver.options["iprint"] = -1
    p.run_model()
    return [float(p.get_val(k, units=u).ravel()[0]) for k, u in
            (("pt.CL", None), ("pt.CD", None), ("pt.wing_perf.failure", None), ("wing.structural_mass", "kg"))]


FLEX = [(), (("with_wave", False),), (("struct_weight_relief", False),), (("E", 40e9), ("G", 15e9)), (("wing_weight_ratio", 1.9),), (("fem_origin", 0.45),),
        (("yield", 200e6),), (("mrho", 1.6e3),), (("exact_failure_constraint", False), ("k_lam", 0.2)), (("strength_factor_for_upper_skin", 0.8),)]


def flexible_case(rep, seed, n, chunk=0):
    """The coupled analysis of a flexible wing against OpenAeroStruct's own assembly of the same documented wing and flight condition."""
    _, ae = modules()
    rng = rng_for("C28", "flexible", seed, chunk)
    for j in range(n):
        o = dict(num_x=int(rng.choice([1, 2])), num_y=int(rng.choice([3, 4, 6])), num_twist=int(rng.choice([2, 3, 4, 5])), num_toverc=int(rng.choice([2, 3, 4])),
                 num_skin=int(rng.choice([2, 3, 4])), num_spar=int(rng.choice([2, 3, 5])))
        for k in ("num_twist",):
            o[k] = min(o[k], o["num_y"] + 1)
        for k in ("num_toverc", "num_skin", "num_spar"):
            o[k] = min(o[k], o["num_y"])
        w = ae_wing(rng, o)
        surf = FLEX[0] if rng.random() < 0.4 else FLEX[int(rng.integers(len(FLEX)))]
        c = (rng.uniform(0.2, 0.85), rng.uniform(-3, 7), rng.uniform(0, 1.2e4))
        dT = float(rng.choice([0.0, 15.0, -20.0]))
        lf = 1.0 if rng.random() < 0.5 else float(rng.uniform(1.2, 3.0))
        try:
            want = oas_coupled(o, w, c, dT, surf, lf)
        except om.AnalysisError:
            rep.skip("the reference analysis diverged")
            continue
        got = ae_direct(ae, o, w, [c], dT, surf, {}, lf)[0]
        for q, (name, rt, at) in enumerate((("lift", 1e-6, 1e-8), ("drag", 1e-6, 1e-9), ("failure", 1e-5, 1e-7), ("weight", 1e-9, 0.0))):
            rep.close("Aerostruct:flexible wing %s" % name, got[q], want[q], rtol=rt, atol=at, options=o, wing=w, condition=c, dT=dT, surf=surf, load_factor=lf)
        rep.evaluated(("flexible", repr(o), repr(surf), repr(c)))
        rep.event("flexible_wings")


def pair_case(rep, seed, n, chunk=0, steps=1):
    """Two polars of different wings in one model: each gives the drag and the derivatives it gives alone."""
    dp, ae = modules()
    rng = rng_for("C28", "pair", seed, chunk)
    for j in range(n):
        kind = "AerostructDragPolar" if chunk % 2 else "VLMDragPolar"   # the former retrains at every iteration: minutes
        cls = getattr(ae if kind[0] == "A" else dp, kind, None)
        if cls is None:
            continue
        forget_options()
        nn = int(rng.choice([1, 2]))
        o = dict(num_nodes=nn, num_x=int(rng.choice([1, 2])) if kind[0] == "V" else 1, num_y=3, num_twist=2)
        if kind[0] == "A":
            o.update(num_toverc=2, num_skin=2, num_spar=2)
        g = dict(Mach_train=np.array([0.25, rng.uniform(0.5, 0.7)]), alpha_train=np.array([-3.0, 2.0, rng.uniform(6, 9)]), alt_train=np.array([0.0, rng.uniform(5e3, 1e4)]))
        if kind[0] == "A":
            g["alpha_train"] = g["alpha_train"][[0, 2]]
        elif rng.random() < 0.5:
            g["Mach_train"] = np.linspace(0.2, 0.7, 3)

        def case():
            v = ae_wing(rng, dict(num_twist=2, num_toverc=2 if kind[0] == "A" else 3, num_skin=2, num_spar=2))
            if kind[0] == "V":
                for k in ("ac|geom|wing|toverc", "ac|geom|wing|skin_thickness", "ac|geom|wing|spar_thickness"):
                    del v[k]
            return v, dict(dT=float(rng.choice([0.0, 12.0])), M=rng.uniform(0.3, 0.5, nn), h=rng.uniform(0, 4e3, nn), q=rng.uniform(3e3, 1e4, nn), CL=rng.uniform(0.2, 0.5, nn),
                           nw=rng.uniform(0.0, 0.02))

        def fill(p, pre, w):
            for k, x in w[0].items():
                p.set_val(pre + k, x, units=AE_IN[k][0])
            for k, x, u in (("fltcond|TempIncrement", "dT", "degC"), ("fltcond|M", "M", None), ("fltcond|h", "h", "m"), ("fltcond|q", "q", "Pa"), ("fltcond|CL", "CL", None),
                            ("ac|aero|CD_nonwing", "nw", None)):
                p.set_val(pre + k, w[1][x], units=u)

        def build(k):
            p = om.Problem(reports=False)
            for i in range(k):
                p.model.add_subsystem("w%d" % i, cls(**o, **g))
            solver(p.model, nn)
            p.setup(check=False)
            return p

        def result(p, pre, names):
            of = ["drag"] + (["failure", "ac|weights|W_wing"] if kind[0] == "A" else [])
            J = p.compute_totals([pre + q for q in of], [pre + q for q in names])
            r = {q: np.array(p.get_val(pre + q)) for q in of}
            for q in of:
                for x in names:
                    r["d%s/d%s" % (q, x)] = np.array(J[pre + q, pre + x])
            return r
        with instrumented(True):
            p = build(2)
            ws = [case(), case()]
            for step in range(steps):
                if step:
                    ws[int(rng.integers(2))] = case()
                for i, w in enumerate(ws):
                    fill(p, "w%d." % i, w)
                names = list(ws[0][0]) + ["fltcond|TempIncrement", "fltcond|CL", "fltcond|q", "fltcond|M", "fltcond|h"]
                p.run_model()
                both = [result(p, "w%d." % i, names) for i in range(2)]
                for i, w in enumerate(ws):
                    a = build(1)
                    fill(a, "w0.", w)
                    a.run_model()
                    alone = result(a, "w0.", names)
                    for k in alone:
                        rep.close("%s:two wings in one model:%s" % (kind, k), both[i][k], alone[k], rtol=1e-5, scale=max(np.max(np.abs(alone[k])), 1e-6), atol=1e-7, options=o, grid=g,
                                  which=i, step=step, wings=[x[0] for x in ws])
                    rep.evaluated(("pair", kind, i, step, repr(w[0])))
                    rep.event("wings_sharing_a_model")


def cases(tier, seed):
    q = tier == "quick"
    out = list(by_prop("C28", tier, seed, 120, 3000))
    K = 8 if q else 48
    for c in range(K):
        out.append(dict(fn="history_case", args=dict(seed=seed, n=3 if q else 12, chunk=c)))
        out.append(dict(fn="polar_case", args=dict(seed=seed, n=3 if q else 8, chunk=c)))
        out.append(dict(fn="ae_case", args=dict(seed=seed, n=1 if q else 4, chunk=c)))
    for c in range(2 if q else 8):
        out.append(dict(fn="history_case", args=dict(seed=seed, n=1, chunk=c, serial=False, steps=8)))
        out.append(dict(fn="polar_case", args=dict(seed=seed, n=1, chunk=c, serial=False)))
        out.append(dict(fn="ae_case", args=dict(seed=seed, n=1, chunk=c, serial=False, steps=3)))
        out.append(dict(fn="vlm_case", args=dict(seed=seed, n=25 if q else 80, chunk=c)))
        out.append(dict(fn="rigid_case", args=dict(seed=seed, n=4 if q else 15, chunk=c)))
        out.append(dict(fn="pair_case", args=dict(seed=seed, n=1 if q else 2, chunk=c, steps=1 if q else 2)))
        out.append(dict(fn="flexible_case", args=dict(seed=seed, n=8 if q else 40, chunk=c)))
    return out
