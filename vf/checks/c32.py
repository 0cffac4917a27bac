"""C32: what cannot be modelled is refused, what is documented is accepted (monitor over many small set-ups and runs)."""
import warnings
import numpy as np
import openmdao.api as om
from ..core import rng_for, HarnessSkip
from ..spec import pick
RULE = "distinct (kind of request, legal or not, its numbers) on which refusal or acceptance was observed"
ASSUMPTIONS = ["any exception counts as a refusal; which one, and its text, is not judged"]


def cases(tier, seed):
    n = 24 if tier == "quick" else 300
    return [dict(fn="probe_case", args=dict(kind=k, n=max(4, int(n * w)), seed=seed)) for k, (f, w) in PROBES.items()]


def build(*cls, pre=None, run=False, vals=(), **kw):
    p = om.Problem(reports=False)
    c = cls[0](*cls[1:], **kw)
    if pre:
        pre(c)
    p.model.add_subsystem("c", c, promotes=["*"])
    p.setup()
    if run:
        for k, v in vals:
            p.set_val(k, v)
        p.run_model()
    return p


def lengths(rng, bad):
    """number of names, and the length of a list meant to go with them"""
    n = int(rng.integers(2, 6))
    return n, (n if not bad else int(rng.choice([m for m in (n - 1, n + 1, n + 2) if m > 0])))


# each probe: (rng, bad) -> (text for the record, function that makes the request)
def adder(rng, bad):
    C = pick("openconcept.utilities:AddSubtractComp")
    n, m = lengths(rng, bad)
    names = ["x%d" % i for i in range(n)]
    how = rng.random() < 0.5
    kw = dict(scaling_factors=rng.uniform(-2, 2, m).tolist()) if rng.random() < 0.5 else dict(vec_size=[1] + [4] * (m - 1))
    return (how, n, str(kw)), (lambda: build(C, "y", names, **kw)) if how else (lambda: build(C, pre=lambda c: c.add_equation("y", names, **kw)))


def multiplier(rng, bad):
    C = pick("openconcept.utilities:ElementMultiplyDivideComp")
    n, m = lengths(rng, bad)
    names = ["x%d" % i for i in range(n)]
    how = rng.random() < 0.5
    kw = [dict(divide=[bool(b) for b in rng.random(m) < 0.5]), dict(input_units=["m"] * m), dict(vec_size=[1] + [4] * (m - 1))][int(rng.integers(3))]
    return (how, n, str(kw)), (lambda: build(C, "y", names, **kw)) if how else (lambda: build(C, pre=lambda c: c.add_equation("y", names, **kw)))


def concat(rng, bad):
    C = pick("openconcept.utilities:VectorConcatenateComp")
    n, m = lengths(rng, bad)
    names, sz = ["x%d" % i for i in range(n)], rng.integers(1, 5, m).tolist()
    how = rng.random() < 0.5
    return (how, n, str(sz)), (lambda: build(C, "y", names, sz)) if how else (lambda: build(C, pre=lambda c: c.add_relation("y", names, sz)))


def split(rng, bad):
    C = pick("openconcept.utilities:VectorSplitComp")
    n, m = lengths(rng, bad)
    names, sz = ["x%d" % i for i in range(n)], rng.integers(1, 5, m).tolist()
    how = rng.random() < 0.5
    return (how, n, str(sz)), (lambda: build(C, names, "y", sz)) if how else (lambda: build(C, pre=lambda c: c.add_relation(names, "y", sz)))


def derivative(rng, bad):
    C = pick("openconcept.utilities.math.derivatives:FirstDerivative")
    if not bad:
        order = int(rng.choice([2, 4]))
        ni = int(rng.integers(1 if order == 2 else 2, 8))
    elif rng.random() < 0.5:
        order, ni = 4, 1
    else:
        order, ni = int(rng.choice([0, 1, 3, 5, 6])), int(rng.integers(2, 8))
    kw = dict(order=order, num_intervals=ni)
    if rng.random() < 0.5:
        kw["segment_names"] = ["a", "b"]
    return str(kw), lambda: build(C, run=True, **kw)


def integrator(rng, bad):
    C = pick("openconcept.utilities:Integrator")
    kw = dict(num_nodes=int(2 * rng.integers(2, 9) + 1), method=str(rng.choice(["simpson", "bdf3"])), time_setup=str(rng.choice(["dt", "duration", "bounds"])), diff_units="s")
    un = [dict(units="kg"), dict(rate_units="kg/s"), {}][int(rng.integers(3))]
    if bad:
        z = int(rng.integers(4))
        if z == 0:
            kw.update(num_nodes=int(2 * rng.integers(2, 9)))
        elif z == 3:
            kw.update(method=str(rng.choice(["rk4", "bdf", "Simpson", ""])))
        elif z == 1:
            kw.update(time_setup=str(rng.choice(["dts", "Duration", "bound", "", "none"])))
        else:
            un = dict(units="kg", rate_units="kg/s")
    return str((kw, un)), lambda: build(C, pre=lambda c: c.add_integrand("q", rate_name="dqdt", **un), run=True, **kw)


def old_integrator(rng, bad):
    C = pick("openconcept.utilities.math.integrals:OldIntegrator")
    kw = dict(num_nodes=int(2 * rng.integers(2, 9) + 1), method=str(rng.choice(["simpson", "bdf3"])), time_setup=str(rng.choice(["dt", "duration", "bounds"])), diff_units="s", quantity_units="kg")
    if rng.random() < 0.4:
        kw.update(segment_names=["a", "b"], time_setup="dt", final_only=bool(rng.random() < 0.5))
    if bad:
        if rng.random() < 0.4:
            kw.update(num_nodes=int(2 * rng.integers(2, 9)))
        elif "segment_names" in kw:
            kw.update(time_setup=str(rng.choice(["duration", "bounds", "dts"])))
        else:
            kw.update(time_setup=str(rng.choice(["dts", "Duration", "bound", ""])))
    return str(kw), lambda: build(C, run=True, **kw)


def selector(rng, bad):
    C = pick("openconcept.utilities:SelectorComp")
    n, nn = int(rng.integers(1, 6)), int(rng.choice([1, 2, 5, 9]))
    s = rng.integers(0, n, nn).astype(float)
    if bad and rng.random() < 0.2:
        return "no names", lambda: build(C, num_nodes=nn, input_names=[])
    if bad:
        s[rng.integers(nn)] = rng.choice([-1.0, -3.0, n, n + 1, n + 7])
    return (n, s.tolist()), lambda: build(C, num_nodes=nn, input_names=["x%d" % i for i in range(n)], run=True, vals=[("selector", s)])


def dictionary(rng, bad):
    C = pick("openconcept.utilities:DictIndepVarComp")
    d = {"a": {"b": {"c": {"value": float(rng.uniform(1, 9)), "units": "m"}, "e": {"units": "m"}}, "f": {"value": 3}}}
    name = str(rng.choice(["a|b|e", "a|b|x", "a|b", "x", "a|x|c", "a"])) if bad else str(rng.choice(["a|b|c", "a|f"]))
    return name, lambda: build(C, d, pre=lambda c: c.add_output_from_dict(name))


def dict_group(rng, bad):
    G = pick("openconcept.utilities:DictIndepVarComp")
    d = {"ac": {"geom": {"wing": {"S_ref": {"value": 20.0, "units": "m**2"}}}}}
    unit = str(rng.choice(["kg", "s", "W"])) if bad else str(rng.choice(["ft**2", "m**2", "inch**2"]))

    def go():
        p = build(G, d, pre=lambda c: c.add_output_from_dict("ac|geom|wing|S_ref"), run=True)
        p.get_val("ac|geom|wing|S_ref", units=unit)
    return unit, go


def blades(rng, bad):
    C = pick("openconcept.propulsion:SimplePropeller")
    k = int(rng.choice([1, 2, 5, 6, 8])) if bad else int(rng.choice([3, 4]))
    return k, lambda: build(C, num_nodes=int(rng.integers(1, 5)), num_blades=k)


def splitter(rng, bad):
    C = pick("openconcept.propulsion:PowerSplit")
    r = str(rng.choice(["Fraction", "amount", "percent", "", "none"])) if bad else str(rng.choice(["fraction", "fixed"]))
    return r, lambda: build(C, num_nodes=int(rng.integers(1, 5)), rule=r, run=True)


def turbofan(rng, bad):
    C = pick("openconcept.propulsion:RubberizedTurbofan")
    e = str(rng.choice(["N5", "cfm56", "CFM65", "n3", "", "LEAP"])) if bad else "CFM56"
    return e, lambda: build(C, num_nodes=1, engine=e)


def mesh(rng, bad):
    M = "openconcept.aerodynamics.openaerostruct.mesh_gen:"
    k = int(rng.integers(3))
    C = pick(M + ["SectionPlanformMesh", "ThicknessChordRatioInterp", "SectionLinearInterp"][k])
    ns = int(rng.integers(2, 6))
    kw = dict(num_sections=ns)
    if rng.random() < 0.7:
        kw["num_y"] = rng.integers(1, 5, ns - 1).tolist()
    if bad:
        if rng.random() < 0.3:
            kw = dict(num_sections=int(rng.choice([0, 1])), num_y=2)
        else:
            kw["num_y"] = rng.integers(1, 5, int(rng.choice([m for m in (ns - 2, ns, ns + 1) if m > 0]))).tolist()
    return (k, str(kw)), lambda: build(C, run=True, **kw)


def exchanger_reynolds(rng, bad):
    C = pick("openconcept.thermal.heat_exchanger:OffsetStripFinData")
    nn = int(rng.choice([1, 2, 5, 9]))
    re = 10 ** rng.uniform(2, 4, nn)
    if bad:
        re[rng.integers(nn)] *= rng.choice([-1.0, 0.0])
    return re.tolist(), lambda: build(C, num_nodes=nn, run=True, vals=[("Re_dh_cold", re), ("Re_dh_hot", 10 ** rng.uniform(2, 4, nn)), ("alpha_cold", .2), ("delta_cold", .02), ("gamma_cold", .05), ("alpha_hot", .2), ("delta_hot", .02), ("gamma_hot", .05)])


def exchanger_film(rng, bad):
    C = pick("openconcept.thermal.heat_exchanger:ConvectiveCoefficient")
    D = pick("openconcept.thermal.heat_exchanger:FinEfficiency")
    nn = int(rng.choice([1, 2, 5, 9]))
    h = 10 ** rng.uniform(1, 3, nn)
    if bad:
        h[rng.integers(nn)] *= rng.choice([-1.0, 0.0])
    if rng.random() < 0.5:
        return ("film", h.tolist()), lambda: build(C, num_nodes=nn, run=True, vals=[("Nu_dh_cold", h), ("Nu_dh_hot", np.abs(h) + 1), ("dh_cold", .002), ("dh_hot", .002), ("k_cold", .02), ("k_hot", .02)])
    return ("fin", h.tolist()), lambda: build(D, num_nodes=nn, run=True, vals=[("h_conv_cold", h), ("h_conv_hot", np.abs(h) + 1), ("fin_area_ratio_cold", .8), ("fin_area_ratio_hot", .8), ("channel_height_cold", .01), ("channel_height_hot", .002), ("fin_thickness", 1e-4), ("material_k", 190.)])


def duct(rng, bad):
    H, X = pick("openconcept.thermal.ducts:HeatAdditionPressureLoss"), pick("openconcept.thermal.ducts:DuctExitMachNumber")
    nn = int(rng.choice([1, 2, 5, 9]))
    v = rng.uniform(0.2, 5, nn)
    if bad:
        v[rng.integers(nn)] *= rng.choice([-1.0, 0.0])
    if rng.random() < 0.5:
        return ("mass flow", v.tolist()), lambda: build(H, num_nodes=nn, run=True, vals=[("mdot", v), ("Tt_in", 300.0), ("pt_in", 1e5), ("rho", 1.0), ("area", 0.5), ("pressure_recovery", 0.98), ("cp", 1002.0)])
    return ("pressure ratio", (v / 5.1).tolist()), lambda: build(X, num_nodes=nn, run=True, vals=[("nozzle_pressure_ratio", v / 5.1)])


def phases(rng, bad):
    from openconcept.mission import PhaseGroup, TrajectoryGroup, IntegratorGroup
    named = [True, True]
    wrong = int(rng.integers(3)) if bad else -1     # which of the requests is the impossible one
    if wrong in (0, 1):
        named[wrong] = False

    class Model(IntegratorGroup):
        def initialize(self):
            self.options.declare("num_nodes", default=5)
            self.options.declare("named", default=True)

        def setup(self):
            nn = self.options["num_nodes"]
            tags = ["integrate"] + (["state_name:q"] if self.options["named"] else []) + ["state_units:m", "state_val:0.0", "state_promotes:True"]
            self.add_subsystem("r", om.ExecComp("dq=2*a", dq={"shape": (nn,), "units": "m/s", "tags": tags}, a={"shape": (nn,)}), promotes=["*"])

    class Ph(PhaseGroup):
        def initialize(self):
            self.options.declare("num_nodes", default=5)
            self.options.declare("named", default=True)

        def setup(self):
            self.add_subsystem("iv", om.IndepVarComp("duration", 1.0, units="s"), promotes=["*"])
            self.add_subsystem("m", Model(num_nodes=self.options["num_nodes"], named=self.options["named"]), promotes=["*"])

    class Tr(TrajectoryGroup):
        def setup(self):
            a = self.add_subsystem("a", Ph(named=named[0]))
            b = self.add_subsystem("b", Ph(named=named[1]) if wrong != 2 else om.Group())
            self.link_phases(a, b)

    def go():
        p = om.Problem(reports=False)
        p.model.add_subsystem("t", Tr())
        p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, iprint=-1)   # rates are computed after the integrator
        p.model.linear_solver = om.DirectSolver()
        p.setup()
        p.run_model()
        q = p.get_val("t.b.q")
        assert abs(q[0] - 2.0) < 1e-9, q
    return wrong, go


def polar_num_y(rng, bad):
    C = pick("openconcept.aerodynamics.openaerostruct:VLMDragPolar")
    ny = [2, 2] if bad else 4
    return str(ny), lambda: build(C, num_nodes=1, num_x=1, num_y=ny, geometry="trapezoidal", alpha_train=np.array([0., 5.]), Mach_train=np.array([.1, .3]), alt_train=np.array([0., 5e3]))


def transition(rng, bad):
    from ..mission import draw_cfg, aircraft_class
    prof = str(rng.choice(["FullMissionAnalysis", "FullMissionWithReserve"]))
    method = str(rng.choice(["ODE", "simple", "none", ""])) if bad else str(rng.choice(["ode", "simplified"]))
    C = pick("openconcept.mission:" + prof)
    a = aircraft_class(draw_cfg(int(rng.integers(1 << 30)), prof, 0)["aircraft"])
    return (prof, method), lambda: build(C, num_nodes=3, aircraft_model=a, transition_method=method)


def plot(rng, bad):
    F = pick("openconcept.utilities.visualization:plot_OAS_force_contours")
    nx, ny = int(rng.integers(2, 5)), int(rng.integers(3, 7))
    x, y = np.meshgrid(np.linspace(0, 2, nx), np.linspace(-8, 0, ny), indexing="ij")
    kw = dict(wing=str(rng.choice(["left", "right", "both"])), force_dir=int(rng.integers(3)))
    if bad:
        kw.update([dict(wing=str(rng.choice(["Left", "starboard", ""]))), dict(force_dir=int(rng.choice([-1, 3, 7])))][int(rng.integers(2))])

    def go():
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        try:
            F(np.stack([x, y, 0 * x], axis=2), rng.normal(size=(nx - 1, ny - 1, 3)), **kw)
        finally:
            plt.close("all")
    return str(kw), go


PROBES = dict(transition=(transition, .5), plot=(plot, .5), adder=(adder, 1), multiplier=(multiplier, 1), concat=(concat, 1), split=(split, 1), derivative=(derivative, 1), integrator=(integrator, 2), old_integrator=(old_integrator, 2),
              selector=(selector, 2), dictionary=(dictionary, 1), dict_group=(dict_group, .5), blades=(blades, .7), splitter=(splitter, .7), turbofan=(turbofan, .3), mesh=(mesh, 1.5),
              exchanger_reynolds=(exchanger_reynolds, 1), exchanger_film=(exchanger_film, 1), duct=(duct, 1), phases=(phases, .7), polar_num_y=(polar_num_y, .2))


def probe_case(rep, kind, n, seed):
    rng = rng_for("C32", kind, seed)
    for j in range(n):
        bad = j % 2 == 1
        try:
            what, request = PROBES[kind][0](rng, bad)
        except (ImportError, AttributeError) as ex:
            raise HarnessSkip(str(ex))
        err = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                request()
            except Exception as ex:
                err = "%s: %s" % (type(ex).__name__, str(ex)[:300])
        if bad:
            rep.require("%s:an impossible request is refused" % kind, err is not None, request=what)
        else:
            rep.require("%s:a legal request is accepted" % kind, err is None, request=what, error=err)
        rep.evaluated((kind, bad, repr(what)))
        rep.event(("refused:" if err else "accepted:") + kind)
        rep.sample(kind=kind, legal=not bad, request=what, outcome=err or "accepted")
