"""C31: what the plotting helpers actually draw, observed on the matplotlib artists and the files they write."""
import contextlib
import os
import shutil
import tempfile
import numpy as np
import openmdao.api as om
from ..core import rng_for, HarnessSkip

RULE = ("distinct (helper, options, data) calls after which every drawn artist (lines, labels, mesh segments, contour fields, "
        "saved pages) was compared with the recorded data")
ASSUMPTIONS = ["matplotlib with the Agg backend; nodal contour values are the documented three-quarter / one-quarter chordwise weighting "
               "of the adjacent panels' force per area"]
CONV = {("m", "ft"): 1 / 0.3048, ("m", "km"): 1e-3, ("m", "m"): 1.0, ("kg", "lb"): 1 / 0.45359237, ("kg", "kg"): 1.0,
        ("s", "min"): 1 / 60.0, ("s", "s"): 1.0, ("m/s", "kn"): 1 / 0.514444444444444, ("m/s", "m/s"): 1.0,
        ("N", "lbf"): 1 / 4.4482216152605, ("N", "kN"): 1e-3, ("W", "hp"): 1 / 745.69987158227022, ("W", "kW"): 1e-3}
VARS = [("range", "m", ["ft", "km", "m"]), ("fltcond|h", "m", ["ft", "m"]), ("weight", "kg", ["lb", "kg"]),
        ("duration", "s", ["min", "s"]), ("fltcond|Utrue", "m/s", ["kn", "m/s"]), ("thrust", "N", ["lbf", "kN"]),
        ("power.p", "W", ["hp", "kW"]), ("throttle", None, [None]), ("fltcond|CL", None, [None])]


def viz():
    try:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from openconcept.utilities import visualization
    except ImportError as ex:
        raise HarnessSkip(str(ex))
    return plt, visualization


def make_problem(rng, phases, recorder=None):
    """A problem with one group per phase holding vectors of known values, driven through real OpenMDAO units."""
    p = om.Problem(reports=False)
    data = {}
    for ph in phases:
        g = p.model.add_subsystem(ph, om.Group())
        nn = int(rng.choice([1, 3, 5, 11]))
        iv = g.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
        pw = g.add_subsystem("power", om.IndepVarComp())
        for name, unit, _ in VARS:
            v = rng.normal(size=nn) * 10.0 ** rng.uniform(-1, 4)
            data[ph, name] = v
            if name.startswith("power."):
                pw.add_output("p", v, units=unit)
            else:
                iv.add_output(name, v, units=unit)
    if recorder:
        p.add_recorder(om.SqliteRecorder(recorder))
        p.recording_options["record_inputs"] = True
        p.recording_options["includes"] = ["*"]
    p.setup(check=False)
    return p, data


def conv(unit, want, v):
    return v if unit is None else v * CONV[unit, want]


def pick(rng, n):
    out = []
    for _ in range(n):
        name, unit, us = VARS[int(rng.integers(len(VARS)))]
        out.append((name, unit, us[int(rng.integers(len(us)))]))
    return out


def check_lines(rep, key, ax, want, **info):
    """The lines of one axes against a list of (x, y)."""
    lines = ax.get_lines()
    if not rep.require(key + "number of curves in a panel", len(lines) == len(want), got=len(lines), want=len(want), **info):
        return
    for ln, (x, y) in zip(lines, want):
        rep.close(key + "x data", ln.get_xdata(orig=True), x, rtol=1e-6, **info)
        rep.close(key + "y data", ln.get_ydata(orig=True), y, rtol=1e-6, **info)


def trajectory_case(rep, seed, n, chunk=0):
    plt, V = viz()
    rng = rng_for("C31", "traj", seed, chunk)
    for _ in range(n):
        plt.close("all")
        phases = ["climb", "cruise", "descent", "loiter", "v0v1"]
        phases = [phases[i] for i in rng.permutation(5)[: int(rng.integers(1, 6))]]
        p, data = make_problem(rng, phases)
        p.run_model()
        use = [phases[i] for i in rng.permutation(len(phases))[: int(rng.integers(1, len(phases) + 1))]]
        xv = pick(rng, 1)[0]
        yv = pick(rng, int(rng.integers(1, 6)))
        kw = {}
        xl = "the x" if rng.random() < 0.5 else None
        yl = None
        if rng.random() < 0.6:
            yl = [None if rng.random() < 0.2 else "label %d" % i for i in range(len(yv))]
        if xl or rng.random() < 0.3:
            kw["x_label"] = xl
        if yl or rng.random() < 0.3:
            kw["y_labels"] = yl
        if rng.random() < 0.4:
            kw["plot_title"] = "Some title"
        if rng.random() < 0.4:
            kw["marker"] = "-"
        V.plot_trajectory(p, xv[0], xv[2], [y[0] for y in yv], [y[2] for y in yv], use, **kw)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        x = np.concatenate([conv(xv[1], xv[2], data[ph, xv[0]]) for ph in use])
        info = dict(x=xv, phases=use, options=kw)
        if rep.require("plot_trajectory:one figure per quantity", len(figs) == len(yv), got=len(figs), want=len(yv), **info):
            for i, (f, y) in enumerate(zip(figs, yv)):
                ax = f.axes[0]
                check_lines(rep, "plot_trajectory:", ax,
                            [(x, np.concatenate([conv(y[1], y[2], data[ph, y[0]]) for ph in use]))], y=y, **info)
                rep.require("plot_trajectory:x label", ax.get_xlabel() == (xl or xv[0]), got=ax.get_xlabel(), **info)
                want = y[0] if yl is None else (yl[i] or "")
                rep.require("plot_trajectory:y label", ax.get_ylabel() == want, got=ax.get_ylabel(), want=want, **info)
                rep.require("plot_trajectory:title", ax.get_title() == kw.get("plot_title", "Trajectory"), got=ax.get_title())
                if "marker" in kw:
                    ln = ax.get_lines()[0]
                    rep.require("plot_trajectory:marker", ln.get_linestyle() == "-" and ln.get_marker() in ("None", None, ""))
        rep.event("trajectory_figures", len(figs))
        rep.evaluated(("traj", repr(info), repr(yv), x.tobytes()))
        rep.sample(helper="plot_trajectory", x=xv, y=yv, phases=use, options=kw)
    plt.close("all")


@contextlib.contextmanager
def saved_pages(log):
    """Record, at the moment a figure is saved, where and what it shows."""
    from matplotlib.figure import Figure
    orig = Figure.savefig

    def hooked(self, fname, *a, **k):
        log.append((str(fname), self.number, len(self.axes)))
        return orig(self, fname, *a, **k)
    Figure.savefig = hooked
    try:
        yield
    finally:
        Figure.savefig = orig


def grid_case(rep, seed, n, chunk=0):
    plt, V = viz()
    rng = rng_for("C31", "grid", seed, chunk)
    tmp = tempfile.mkdtemp(prefix="vf-c31-")
    try:
        for t in range(n):
            plt.close("all")
            phases = ["climb", "cruise", "descent", "v0v1"][: int(rng.integers(1, 5))]
            cases, datas = [], []
            for c in range(int(rng.integers(1, 4))):
                if rng.random() < 0.3:          # a recorded case, read back
                    fn = os.path.join(tmp, "rec_%d_%d.sql" % (t, c))
                    p, d = make_problem(rng, phases, fn)
                    p.run_model()
                    p.record("final")
                    p.cleanup()
                    fns = [os.path.join(r, f) for r, _, ff in os.walk(tmp) for f in ff if f == os.path.basename(fn)]
                    if not fns:     # the recorder may choose a reports directory
                        fns = [str(p.get_outputs_dir() / os.path.basename(fn))]
                    cases.append(om.CaseReader(fns[0]).get_case("final"))
                    rep.event("recorded_cases_read_back")
                else:
                    p, d = make_problem(rng, phases)
                    p.run_model()
                    cases.append(p)
                datas.append(d)
            use = [phases[i] for i in rng.permutation(len(phases))[: int(rng.integers(1, len(phases) + 1))]]
            xv = pick(rng, 1)[0]
            rows, cols = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            yv = pick(rng, int(rng.integers(1, 2 * rows * cols + 2)))
            kw = dict(grid_layout=[rows, cols])
            if rng.random() < 0.1:
                kw, rows, cols = {}, 5, 2
            xl = "the x" if rng.random() < 0.5 else None
            yl = None
            if rng.random() < 0.5:
                yl = [None if rng.random() < 0.2 else "label %d" % i for i in range(len(yv))]
            if xl:
                kw["x_label"] = xl
            if yl:
                kw["y_labels"] = yl
            if rng.random() < 0.5:
                kw["figsize"] = (3, 3)
            pages = -(-len(yv) // (rows * cols))
            save = None
            if rng.random() < 0.25 and pages <= 3:
                save = os.path.join(tmp, "plot%d" % t)
                kw["savefig"] = save
            log = []
            with saved_pages(log):
                V.plot_trajectory_grid(cases, xv[0], xv[2], [y[0] for y in yv], [y[2] for y in yv], use, **kw)
            figs = [plt.figure(i) for i in plt.get_fignums()]
            info = dict(x=xv, phases=use, options={k: v for k, v in kw.items() if k != "savefig"}, quantities=len(yv))
            xs = [np.concatenate([conv(xv[1], xv[2], d[ph, xv[0]]) for ph in use]) for d in datas]
            if save:
                want = ["%s_%d.pdf" % (save, i) for i in range(pages)]
                rep.require("plot_trajectory_grid:saved pages", [x[0] for x in log] == want and
                            all(os.path.getsize(w) > 0 for w in want if os.path.exists(w)), got=[os.path.basename(x[0]) for x in log], want=pages, **info)
                if len(figs) == len(log):
                    rep.require("plot_trajectory_grid:each page saved from its own figure", [x[1] for x in log] == [f.number for f in figs], **info)
                rep.event("saved_pages", len(log))
            if rep.require("plot_trajectory_grid:number of pages", len(figs) == pages, got=len(figs), want=pages, **info):
                for i, y in enumerate(yv):
                    f = figs[i // (rows * cols)]
                    k = i % (rows * cols)
                    if not rep.require("plot_trajectory_grid:panels per page", len(f.axes) == rows * cols, got=len(f.axes), want=rows * cols, **info):
                        break
                    ax = f.axes[k]
                    check_lines(rep, "plot_trajectory_grid:", ax,
                                [(x, np.concatenate([conv(y[1], y[2], d[ph, y[0]]) for ph in use])) for x, d in zip(xs, datas)], y=y, **info)
                    want = y[0] if yl is None else (yl[i] or "")
                    rep.require("plot_trajectory_grid:y label", ax.get_ylabel() == want, got=ax.get_ylabel(), want=want, **info)
                    if k // cols == rows - 1:
                        rep.require("plot_trajectory_grid:x label", ax.get_xlabel() == (xl or xv[0]), got=ax.get_xlabel(), **info)
                for k in range((len(yv) - 1) % (rows * cols) + 1, rows * cols):
                    rep.require("plot_trajectory_grid:unused panels are empty", not figs[-1].axes[k].get_lines(), **info)
            rep.event("grid_panels", len(yv))
            rep.evaluated(("grid", repr(info), repr(yv), xs[0].tobytes()))
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


def random_mesh(rng):
    nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 8))
    y = np.sort(-np.cumsum(rng.uniform(0.2, 3, ny)))
    y = np.append(y, 0.0)
    le = np.cumsum(rng.uniform(-0.3, 1, ny + 1))[::-1]
    ch = rng.uniform(0.5, 5, ny + 1)
    f = np.concatenate([[0], np.cumsum(rng.uniform(0.2, 1, nx))])
    f /= f[-1]
    m = np.zeros((nx + 1, ny + 1, 3))
    m[:, :, 0] = le + np.outer(f, ch)
    m[:, :, 1] = y
    m[:, :, 2] = rng.normal(size=(nx + 1, ny + 1)) * 0.1
    return m


def edges_of(segs):
    out = set()
    pts = set()
    for s in segs:
        s = [tuple(np.round(q, 9) + 0.0) for q in s]
        pts |= set(s)
        for a, b in zip(s[:-1], s[1:]):
            out.add((min(a, b), max(a, b)))
    return out, pts


def mesh_case(rep, seed, n, chunk=0):
    plt, V = viz()
    from matplotlib.collections import LineCollection
    from matplotlib.axes import Axes
    rng = rng_for("C31", "mesh", seed, chunk)
    for _ in range(n):
        plt.close("all")
        m = random_mesh(rng)
        keep = m.copy()
        ref = dict(full=np.concatenate([m, (m * [1, -1, 1])[:, ::-1][:, 1:]], axis=1))
        kw = {}
        if rng.random() < 0.3:
            kw["set_xlim"] = False
        if rng.random() < 0.3:
            kw["turn_off_axis"] = False
        given = rng.random() < 0.4
        if given:
            fig, ax = plt.subplots()
            r = V.plot_OAS_mesh(m, ax=ax, **kw)
        else:
            r = V.plot_OAS_mesh(m, **kw)
            if not rep.require("plot_OAS_mesh:returns figure and axis", isinstance(r, tuple) and len(r) == 2):
                continue
            fig, ax = r
        full = ref["full"]
        xy = np.stack([full[:, :, 1], -full[:, :, 0]], axis=2)
        want, wpts = edges_of(list(xy) + list(xy.transpose(1, 0, 2)))
        segs = [s for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
        got, gpts = edges_of(segs)
        info = dict(mesh_shape=m.shape, options=kw)
        rep.require("plot_OAS_mesh:mesh lines", got == want, missing=len(want - got), extra=len(got - want), **info)
        rep.events["oracle_comparisons"] += len(want)
        fills = [c for c in ax.collections if not isinstance(c, LineCollection)]
        if rep.require("plot_OAS_mesh:planform fill", len(fills) == 1, got=len(fills), **info):
            v = fills[0].get_paths()[0].vertices
            rep.close("plot_OAS_mesh:planform area", polygon_area(v), polygon_area(np.concatenate([xy[0], xy[-1][::-1]])), rtol=1e-9, **info)
            rep.close("plot_OAS_mesh:planform extent", [v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()],
                      [xy[:, :, 0].min(), xy[:, :, 0].max(), xy[[0, -1], :, 1].min(), xy[[0, -1], :, 1].max()], atol=1e-9, **info)
        if kw.get("set_xlim", True):
            rep.close("plot_OAS_mesh:x limits", ax.get_xlim(), [full[0, :, 1].min(), full[0, :, 1].max()], rtol=1e-12, **info)
        rep.require("plot_OAS_mesh:axis switched off", ax.axison == (not kw.get("turn_off_axis", True)), **info)
        rep.require("plot_OAS_mesh:mesh not modified", np.array_equal(m, keep))
        rep.event("meshes_drawn")
        rep.evaluated(("mesh", m.tobytes(), repr(kw)))

        # force contours
        plt.close("all")
        press = rng.normal(size=(m.shape[0] - 1, m.shape[1] - 1, 3)) * 1e3
        uniform = rng.random() < 0.4
        fd = int(rng.integers(3))
        if uniform:
            press[:, :, fd] = rng.uniform(1, 1e4)
        dy = np.diff(m[0, :, 1])
        dx = m[1:, :, 0] - m[:-1, :, 0]
        area = 0.5 * (dx[:, 1:] + dx[:, :-1]) * dy
        forces = press * area[:, :, None]
        wing = str(rng.choice(["left", "right", "both"]))
        kw2 = dict(kw)
        if fd != 2 or rng.random() < 0.5:
            kw2["force_dir"] = fd
        if wing != "both" or rng.random() < 0.5:
            kw2["wing"] = wing
        if rng.random() < 0.5 and not uniform:
            kw2["levels"] = 7
        log = []
        orig = Axes.contourf

        def hooked(self, *a, **k):
            log.append((a, k))
            return orig(self, *a, **k)
        fkeep = forces.copy()
        Axes.contourf = hooked
        try:
            if given:
                fig, ax = plt.subplots()
                c = V.plot_OAS_force_contours(m, forces, ax=ax, **kw2)
            else:
                c, fig, ax = V.plot_OAS_force_contours(m, forces, **kw2)
        finally:
            Axes.contourf = orig
        pn = press[:, :, fd]
        info = dict(mesh_shape=m.shape, options=kw2)
        nod = nodal(pn)
        rep.close("plot_OAS_force_contours:range of force per area", [c.zmin, c.zmax], [nod.min(), nod.max()], rtol=1e-9,
                  scale=np.abs(pn), **info)
        if log and len(log[-1][0]) >= 3:
            X, Y, Z = (np.asarray(q, float) for q in log[-1][0][:3])
            if X.ndim == 1:
                X, Y = np.meshgrid(X, Y)
            pts = {}
            for yy, xx, zz in zip(X.ravel(), Y.ravel(), Z.ravel()):
                pts.setdefault((round(yy, 9) + 0.0, round(xx, 9) + 0.0), []).append(zz)
            want = {}
            for s in ((1,) if wing == "left" else (-1,) if wing == "right" else (1, -1)):
                for ix in np.ndindex(nod.shape):
                    want[(round(s * m[ix][1], 9) + 0.0, round(-m[ix][0], 9) + 0.0)] = nod[ix]
            if rep.require("plot_OAS_force_contours:panel locations", set(pts) == set(want), missing=len(set(want) - set(pts)),
                           extra=len(set(pts) - set(want)), **info):
                for q, w in want.items():
                    rep.close("plot_OAS_force_contours:force per area at the nodes", pts[q], np.full(len(pts[q]), w), rtol=1e-9,
                              scale=np.abs(pn), at=q, **info)
            rep.event("contour_fields_observed")
        if uniform:
            rep.close("plot_OAS_force_contours:uniform pressure stays uniform", [c.zmin, c.zmax], [pn[0, 0]] * 2, rtol=1e-9, **info)
        if kw.get("set_xlim", True):
            rep.close("plot_OAS_force_contours:x limits", ax.get_xlim(), [m[0, :, 1].min(), -m[0, :, 1].min()], rtol=1e-12, **info)
        rep.require("plot_OAS_force_contours:inputs not modified", np.array_equal(m, keep) and np.array_equal(forces, fkeep))
        rep.evaluated(("contour", m.tobytes(), forces.tobytes(), repr(kw2)))
    for bad in (dict(wing="up"), dict(force_dir=3)):
        try:
            V.plot_OAS_force_contours(m, forces, **bad)
            rep.violate("plot_OAS_force_contours:invalid option accepted", options=bad)
        except ValueError:
            rep.event("invalid_options_rejected")
    plt.close("all")


def nodal(p):
    """Weighted mean of the adjacent panels' values: forces act at the quarter chord of each panel."""
    nx, ny = p.shape
    out = np.zeros((nx + 1, ny + 1))
    for i in range(nx + 1):
        for j in range(ny + 1):
            num = den = 0.0
            for a, w in ((i, 0.75), (i - 1, 0.25)):
                for b in (j - 1, j):
                    if 0 <= a < nx and 0 <= b < ny:
                        num += w * p[a, b]
                        den += w
            out[i, j] = num / den
    return out


def polygon_area(v):
    x, y = v[:, 0], v[:, 1]
    return 0.5 * abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for c in range(4 if q else 40):
        out.append(dict(fn="grid_case", args=dict(seed=seed, n=40 if q else 120, chunk=c)))
        out.append(dict(fn="trajectory_case", args=dict(seed=seed, n=60 if q else 200, chunk=c)))
        out.append(dict(fn="mesh_case", args=dict(seed=seed, n=100 if q else 400, chunk=c)))
    return out
