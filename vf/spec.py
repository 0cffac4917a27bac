"""Component/system specifications and the generic oracles driven from them.

A Spec says how to build one public class of the library under random options, which inputs it has
(units, shape, documented domain) and - where given - an independently written reference for its outputs.
The generic oracles are: reference agreement, derivative agreement, node independence, history independence.
"""
import copy, importlib
import os
import numpy as np
import openmdao.api as om
from .core import HarnessSkip, Observed, rng_for, repo_frames

REGISTRY = {}


def pick(cls):
    """'pkg.mod:Class' -> class, or HarnessSkip when it is not there on this tree."""
    m, _, c = cls.partition(":")
    try:
        return getattr(importlib.import_module(m), c)
    except (ImportError, AttributeError) as ex:
        raise HarnessSkip("no %s (%s)" % (cls, type(ex).__name__))


def public(cls):
    """Is the class part of what its package exports (as opposed to a module's internal building block)?"""
    m, _, c = cls.partition(":")
    while m:
        mod = importlib.import_module(m)
        if hasattr(mod, "__path__") and hasattr(mod, c):
            return True
        m = m.rpartition(".")[0]
    return False


def ivn(k):
    """Name of the driving variable of input k: inputs of sub-systems ('prop1.rpm', or several joined with '/')
    are connected, the others promoted."""
    return k.replace(".", "__").replace("/", "_AND_")


# ---- samplers: (rng, shape) -> array
EDGY = [False]     # sometimes exactly the ends of a range, or zero, at one or all nodes


def U(lo, hi, edges=()):
    def s(rng, shape):
        v = rng.uniform(lo, hi, shape)
        if EDGY[0] and rng.random() < 0.15:
            c = [lo, hi] + ([0.0] * 3 if lo < 0 < hi else [])
            v = np.where(rng.random(shape) < 0.5, rng.choice(np.array(c, float), shape), v) if rng.random() < 0.5 else np.full(shape, float(rng.choice(c)))
        if edges and rng.random() < 0.4:
            m = rng.random(shape) < 0.5
            v = np.where(m, rng.choice(np.asarray(edges, float), shape), v)
        return v
    return s


def LU(lo, hi):
    def s(rng, shape):
        return np.exp(rng.uniform(np.log(lo), np.log(hi), shape))
    return s


def CH(*vals):
    def s(rng, shape):
        return rng.choice(np.asarray(vals, float), shape)
    return s


def MIX(*samplers):
    """Each element from one of the samplers (regime mixing within a vector)."""
    def s(rng, shape):
        k = rng.integers(0, len(samplers), shape)
        out = np.zeros(shape)
        for i, f in enumerate(samplers):
            out = np.where(k == i, f(rng, shape), out)
        return out
    return s


# documented default number of nodes, where it is not one (None: has to be given)
NN_DEFAULT = dict({k: None for k in ("TemperatureComp", "PressureComp", "DensityComp", "SpeedOfSoundComp", "MachNumberComp", "DynamicPressureComp", "TrueAirspeedComp",
                                     "EquivalentAirspeedComp")}, CoolantReservoir=5, SteadyFlightCL=5, LinearInterpolator=2)


class Spec:
    def __init__(self, cls, prop, I, O=None, opts=None, ref=None, rtol=1e-9, atol=0.0, nn="num_nodes",
                 pointwise=True, solver=None, nodiff=(), name=None, group=False, fixup=None, deriv=True, dtol=2e-5,
                 build=None, kink=None, ntol=1e-10, smooth=True, inv=None, refscale=None, dscale=1e-4, weight=1, nnc=(1, 2, 3, 5, 7, 11), D=None, dfix=None, init=None, sure=None):
        self.cls, self.prop, self.I_, self.O_ = cls, prop, I, O
        self.opts_, self.ref, self.rtol, self.atol, self.nn = opts or (lambda r: {}), ref, rtol, atol, nn
        self.pointwise, self.solver, self.nodiff, self.group = pointwise, solver, set(nodiff), group
        self.fixup, self.deriv, self.dtol, self.build_, self.kink, self.ntol = fixup, deriv, dtol, build, kink, ntol
        self.smooth, self.inv, self.refscale, self.dscale, self.weight = smooth, inv, refscale, dscale, weight
        self.nnc, self.D_, self.dfix, self.init, self.sure = nnc, D, dfix, init, sure
        self.name = name or cls.split(":")[1]
        REGISTRY[self.name] = self

    # -- option/input generation
    def gen_opts(self, rng, nn=None):
        o = dict(self.opts_(rng))
        if self.nn:
            o[self.nn] = int(nn if nn is not None else rng.choice(self.nnc))
            if nn is None and self.pointwise and not self.solver and rng.random() < .05:   # a long vector now and then
                o[self.nn] = int(rng.choice([16, 25, 40]))
        return o

    def gen_inputs(self, rng, opts):
        nn = opts.get(self.nn, 1) if self.nn else 1
        I = self.I_(opts) if callable(self.I_) else self.I_
        vals = {}
        EDGY[0] = not self.solver
        for k, (units, shape, samp) in I.items():
            sh = tuple(nn if s == "n" else s for s in (shape if isinstance(shape, tuple) else (shape,))) if shape is not None else (1,)
            vals[k] = np.array(samp(rng, sh), dtype=float).reshape(sh)
        if self.fixup:
            vals = self.fixup(vals, opts, rng) or vals
        return vals

    def I(self, opts):
        return self.I_(opts) if callable(self.I_) else self.I_

    def O(self, opts):
        return (self.O_(opts) if callable(self.O_) else self.O_) or {}

    def node_inputs(self, opts):
        return [k for k, (u, s, f) in self.I(opts).items() if s == "n" or (isinstance(s, tuple) and "n" in s)]

    def make(self, opts):
        if self.build_:
            return self.build_(opts)
        if self.nn and opts.get(self.nn) == NN_DEFAULT.get(self.name, 1):   # left out where it is the documented default
            opts = {k: v for k, v in opts.items() if k != self.nn}
        return pick(self.cls)(**opts)

    # -- problem
    def problem(self, opts, vals, setup=True):
        p = om.Problem(reports=False)
        ivc = p.model.add_subsystem("vf_ivc", om.IndepVarComp(), promotes=["*"])
        I = self.I(opts)
        for k, v in vals.items():
            if k[0] != "@":
                ivc.add_output(ivn(k), val=np.array(v), units=I[k][0])
        p.model.add_subsystem("vf_sys", self.make(opts), promotes=["*"])
        for k in vals:
            if k[0] != "@" and ivn(k) != k:
                p.model.connect(ivn(k), k.split("/")[0] if "/" not in k else k.split("/"))
        if self.solver:
            self.solver(p.model)
        if setup:
            p.setup()
            self.set(p, {k: v for k, v in vals.items() if k[0] == "@"})
            self.guess(p)
        return p

    def guess(self, p):
        """Initial guesses for an implicit system (they do not enter the converged answer)."""
        for k, (v, u) in (self.init or {}).items():
            try:
                p.set_val(k, v, units=u)
            except KeyError:
                pass

    def w(self, k):
        """Absolute name of the variable that drives input k ('@x': an independent variable inside the system)."""
        return k[1:] if k[0] == "@" else "vf_ivc." + ivn(k)

    def set(self, p, vals):
        for k, v in vals.items():
            p.set_val(self.w(k), v)

    def outs(self, p, opts, units=True):
        O = self.O(opts)
        out = {}
        for k, u in O.items():
            try:
                v = p.get_val(k, units=u if units else None)
            except TypeError as ex:   # the output carries units of another dimension, or none
                raise Observed("%s:%s:wrong_units" % (self.name, k), str(ex)[:200])
            out[k] = np.array(v, dtype=float).copy()
        return out


# ---- solvers for groups
def newton(maxiter=40, atol=1e-11, rtol=1e-13, solve_subsystems=True, ls=False):
    def f(g):
        g.nonlinear_solver = om.NewtonSolver(solve_subsystems=solve_subsystems, maxiter=maxiter, iprint=-1, atol=atol, rtol=rtol)
        if ls == "armijo":
            g.nonlinear_solver.linesearch = om.ArmijoGoldsteinLS(maxiter=5, iprint=-1)
        elif ls:
            g.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar")
            g.nonlinear_solver.linesearch.options["print_bound_enforce"] = False
        g.nonlinear_solver.options["err_on_non_converge"] = False
        # stop once round-off keeps the residual from falling further
        g.nonlinear_solver.options["stall_limit"] = 3
        g.nonlinear_solver.options["stall_tol"] = 1e-9
        g.nonlinear_solver.options["stall_tol_type"] = "abs"
        g.linear_solver = om.DirectSolver()
    return f


def direct(g):
    g.linear_solver = om.DirectSolver(assemble_jac=True)


def converged(p, tol=1e-6):
    """True when the scaled residual of the model is small."""
    p.model.run_apply_nonlinear()
    r = p.model._residuals.asarray()
    return bool(np.all(np.isfinite(r)) and np.linalg.norm(r) < tol)


# ---- oracles ------------------------------------------------------------------------------------
def check_ref(rep, spec, rng, nn=None, opts=None):
    opts = opts if opts is not None else spec.gen_opts(rng, nn)
    vals = spec.gen_inputs(rng, opts)
    drive = vals
    if spec.D_ and rng.random() < .35:
        # leave some inputs unconnected: the documented default applies
        D = spec.D_(opts) if callable(spec.D_) else spec.D_
        left = [k for k in D if k in vals and rng.random() < .6]
        if not [k for k in vals if k not in left and k[0] != "@"]:
            left = left[1:]
        drive = {k: v for k, v in vals.items() if k not in left}
        vals = {k: (np.broadcast_to(np.asarray(D[k], float), v.shape).copy() if k in left else v) for k, v in vals.items()}
        rep.event("inputs_left_at_default", len(left))
    p = spec.problem(opts, drive)
    p.run_model()
    rep.event("model_runs")
    if spec.group and spec.solver and not converged(p, 1e-5):
        if spec.sure and spec.sure(vals, opts):
            rep.violate(spec.name + ":solution_not_found", options=opts, inputs=vals)
        rep.skip("not converged: " + spec.name)
        return
    got = spec.outs(p, opts)
    want = spec.ref({k: v.copy() for k, v in vals.items()}, dict(opts))
    rep.evaluated((spec.name, sorted(opts.items(), key=str), {k: v.tolist() for k, v in vals.items()}))
    rep.event("class:" + spec.name)
    rep.sample(cls=spec.name, options=opts, inputs=vals, outputs=got)
    for k, w in want.items():
        if k.startswith("_") or w is None:
            continue
        rep.close("%s:%s" % (spec.name, k), got[k], w, rtol=spec.rtol, atol=spec.atol if not isinstance(spec.atol, dict) else spec.atol.get(k, 0.0),
                  scale=spec.refscale(k, w) if spec.refscale else None, options=opts, inputs=vals)
    if spec.inv:
        spec.inv(rep, vals, opts, got)


def _rng_dir(rng, shape):
    d = rng.uniform(0.5, 1.0, shape) * rng.choice([-1.0, 1.0], shape)
    return d


def check_deriv(rep, spec, rng, nn=None, opts=None):
    """Derivatives of the real class against re-evaluated differences; kinks are recognised and skipped."""
    opts = opts if opts is not None else spec.gen_opts(rng, nn)
    vals = spec.gen_inputs(rng, opts)
    if spec.dfix:  # keep the differencing steps inside the documented domain
        vals = spec.dfix(vals)
    O = list(spec.O(opts))
    W = [k for k in vals if k not in spec.nodiff]
    if spec.group and spec.solver and len(W) > 6:   # implicit systems: a different handful of inputs in every trial
        W = [W[j] for j in sorted(rng.permutation(len(W))[:6])]
    p = spec.problem(opts, vals)
    p.run_model()
    if spec.group and spec.solver and not converged(p, 1e-5):
        rep.skip("not converged: " + spec.name)
        return
    J = p.compute_totals(of=O, wrt=[spec.w(k) for k in W])
    base = spec.outs(p, opts, units=False)
    # size of the terms that may cancel in an output: round-off of that size is not a derivative
    cancel = {o: max((float(np.max(np.abs(np.asarray(J[o, spec.w(k)])).reshape(base[o].size, -1) @ np.abs(vals[k]).ravel())) for k in W), default=0.0) for o in O}

    rep.evaluated((spec.name, sorted(opts.items(), key=str), {k: v.tolist() for k, v in vals.items()}))
    rep.event("class:" + spec.name)
    rep.sample(cls=spec.name, options=opts, inputs=vals, derivatives="%d outputs x %d inputs" % (len(O), len(W)))

    def f(k, x):
        spec.set(p, {k: x})
        p.run_model()
        rep.event("model_runs")
        if spec.group and spec.solver and not converged(p, 1e-4):
            return None
        return {o: v.ravel() for o, v in spec.outs(p, opts, units=False).items()}

    def diffs(k, v, d, h):
        """one-sided and central differences"""
        a, b = f(k, v + h * d), f(k, v - h * d)
        if a is None or b is None:
            return None
        out = {}
        for o in O:
            f0 = base[o].ravel()
            out[o] = ((a[o] - b[o]) / (2 * h), (a[o] - f0) / h, (f0 - b[o]) / h)
        return out

    if any(not np.all(np.isfinite(b)) for b in base.values()):
        rep.skip("non-finite output: " + spec.name)
        rep.event("nonfinite_outputs")
        return
    I = spec.I(opts)
    for k in W:
        v = vals[k]
        typ = np.maximum(np.abs(v), 1e-3 * np.max(np.abs(v)) if np.max(np.abs(v)) > 0 else 1.0)
        d = _rng_dir(rng, v.shape) * typ
        h = spec.dscale * 10
        D1, D2 = diffs(k, v, d, h), diffs(k, v, d, h / 2)
        suspicious = []
        if D1 is None or D2 is None:
            rep.skip("difference not converged: " + spec.name)
        else:
            for o in O:
                jd = np.asarray(J[o, spec.w(k)]).reshape(base[o].size, v.size) @ d.ravel()
                rich = (4 * D2[o][0] - D1[o][0]) / 3
                est = np.abs(D2[o][0] - D1[o][0])
                noise = 40 * np.finfo(float).eps * (np.abs(base[o].ravel()) + 1e-30) / h * (1e3 if spec.group else 1)
                sc = np.maximum(np.abs(rich), np.abs(jd))
                # relative significance threshold: sensitivity relative to the output's own size
                floor = 1e-9 * np.abs(base[o].ravel()) + 1e-9 * (np.max(np.abs(rich)) if rich.size else 0) + 1e-30
                floor = floor + (1e-13 * cancel[o] if np.isfinite(cancel[o]) else 0.0)
                if spec.group:  # round-off of the linear solve, relative to the largest element of the output
                    floor = floor + 3e-9 * np.max(np.abs(base[o]))
                tol = spec.dtol * sc + 2 * est + noise + floor
                err = np.abs(jd - rich)
                rep.events["oracle_comparisons"] += rich.size
                with np.errstate(invalid="ignore"):
                    bad = ~(err <= tol)
                if bad.any():
                    suspicious.append((o, np.flatnonzero(bad)[:5].tolist(), jd, rich))
        if suspicious:
            # second witness at smaller steps: agree on both sides -> the point is differentiable and J is wrong
            confirmed = []
            E = [diffs(k, v, d, hh) for hh in (spec.dscale, spec.dscale / 4)]
            if all(e is not None for e in E):
                for o, idx, jd, rich in suspicious:
                    for i in idx:
                        c1, c2 = E[0][o][0][i], E[1][o][0][i]
                        fwd, bwd = E[1][o][1][i], E[1][o][2][i]
                        mag = max(abs(c2), abs(jd[i]) if np.isfinite(jd[i]) else 0.0, 1e-300)
                        if np.isfinite(fwd) != np.isfinite(bwd):
                            # the step leaves the domain on one side: the other side's difference decides
                            s = 1 if np.isfinite(fwd) else 2
                            d1, d2 = E[0][o][s][i], E[1][o][s][i]
                            mag = max(abs(d2), abs(jd[i]) if np.isfinite(jd[i]) else 0.0, 1e-300)
                            if np.isfinite(d1) and abs(d1 - d2) < 2e-3 * mag and not abs(jd[i] - d2) < 1e-2 * mag + 1e-7 * abs(base[o].ravel()[i]):
                                confirmed.append((o, i, float(jd[i]), float(d2), float(fwd), float(bwd)))
                            else:
                                rep.skip("edge of the domain: %s" % spec.name)
                            continue
                        fnoise = 200 * np.finfo(float).eps * (np.max(np.abs(base[o])) if spec.group else abs(base[o].ravel()[i])) / (spec.dscale / 4) * (1e3 if spec.group else 1)
                        if abs(c1 - c2) > 1e-3 * mag + fnoise:
                            rep.skip("rough point: %s" % spec.name); continue
                        if abs(fwd - bwd) > 2e-2 * max(abs(c2), 0.1 * mag) + 2 * fnoise:
                            rep.skip("kink: %s" % spec.name); continue
                        # a jump between the one-sided slopes that does not shrink with the step is a kink, however large J is
                        jump0, jump1 = abs(E[0][o][1][i] - E[0][o][2][i]), abs(fwd - bwd)
                        if jump1 > 0.1 * max(abs(fwd), abs(bwd)) + 2 * fnoise and jump1 > 0.5 * jump0:
                            rep.skip("kink: %s" % spec.name); continue
                        rr = (4 * c2 - c1) / 3 if abs(4 * c2 - c1) > 0 else c2
                        tol2 = max(5e-4 if spec.group else 5e-5, 3 * abs(c1 - c2) / mag) * mag + 3 * fnoise + (1e-13 * cancel[o] if np.isfinite(cancel[o]) else 0.0)
                        if not (abs(jd[i] - c2) <= tol2) and not (abs(jd[i] - rr) <= tol2):
                            confirmed.append((o, i, float(jd[i]), float(c2), float(fwd), float(bwd)))
            else:
                rep.skip("difference not converged: " + spec.name)
            for o, i, a, b, fw, bw in confirmed:
                rep.violate("%s:d(%s)/d(%s)" % (spec.name, o, k), element=i, analytic=a, differenced=b, forward=fw,
                            backward=bw, options=opts, inputs=vals)
        spec.set(p, {k: v})


def check_nodes(rep, spec, rng):
    """Batch of nodes == each node alone == permuted batch."""
    if not spec.pointwise or not spec.nn:
        return
    N = int(rng.choice([2, 3, 5, 8])) if spec.solver or rng.random() > .1 else 24
    opts = spec.gen_opts(rng, N)
    vals = spec.gen_inputs(rng, opts)
    nodek = set(spec.node_inputs(opts))
    if not nodek:
        return
    p = spec.problem(opts, vals); p.run_model()
    if spec.group and spec.solver and not converged(p, 1e-5):
        rep.skip("not converged: " + spec.name); return
    base = spec.outs(p, opts)
    O = spec.O(opts)
    # which outputs are per node: size follows the number of nodes
    I = spec.I(opts)

    def sub(idx):
        o2 = dict(opts); o2[spec.nn] = len(idx)
        v2 = {}
        for k, v in vals.items():
            if k in nodek:
                ax = I[k][1].index("n") if isinstance(I[k][1], tuple) else 0
                v2[k] = np.take(v, idx, axis=ax)
            else:
                v2[k] = v
        q = spec.problem(o2, v2); q.run_model()
        if spec.group and spec.solver and not converged(q, 1e-5):
            return None
        return spec.outs(q, o2)
    trials = [[i] for i in range(N)]
    perm = rng.permutation(N).tolist()
    dup = rng.integers(0, N, N + 2).tolist()
    trials = [trials[i] for i in rng.permutation(N)[:3]] + [perm, dup]
    single = sub([0])
    rep.evaluated((spec.name, sorted(opts.items(), key=str), {k: v.tolist() for k, v in vals.items()}))
    rep.event("class:" + spec.name)
    rep.sample(cls=spec.name, options=opts, inputs=vals, node_subsets=trials)
    for idx in trials:
        got = sub(idx)
        rep.event("model_runs")
        if got is None or single is None:
            rep.skip("not converged: " + spec.name); continue
        for k in O:
            b = base[k]
            sc = np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0
            if b.size == single[k].size * N and b.size != single[k].size:
                want = b.reshape((N, -1))[idx]
            elif b.size == single[k].size:
                want = b
            else:
                continue
            rep.close("%s:%s" % (spec.name, k), got[k], want.ravel(), rtol=spec.ntol, atol=spec.ntol * sc * (1e-3 if not spec.group else 1),
                      options=opts, inputs=vals, subset=idx)


def check_history(rep, spec, rng):
    """Results do not depend on what was evaluated before, on derivatives taken, on setup being repeated."""
    opts = spec.gen_opts(rng)
    opts_snapshot = copy.deepcopy(opts)
    A, B = spec.gen_inputs(rng, opts), spec.gen_inputs(rng, opts)
    p = spec.problem(opts, A); p.run_model()
    implicit = bool(spec.group and spec.solver)
    if implicit and not converged(p, 1e-5):
        rep.skip("not converged: " + spec.name); return
    O = list(spec.O(opts)); W = [spec.w(k) for k in A if k not in spec.nodiff]
    a0 = spec.outs(p, opts)
    raw = {o: np.max(np.abs(v)) if v.size and np.all(np.isfinite(v)) else 0.0 for o, v in spec.outs(p, opts, units=False).items()}
    rep.evaluated((spec.name, sorted(opts.items(), key=str), {k: v.tolist() for k, v in A.items()}))
    rep.event("class:" + spec.name)
    rep.sample(cls=spec.name, options=opts, inputs=A, history="A, dA, A, B, dB, A, dA, re-setup, A")
    tol = 1e-6 if implicit else 1e-12
    J0 = p.compute_totals(of=O, wrt=W) if spec.deriv else None

    def same(tag, got, want=a0):
        for k in O:
            sc = np.max(np.abs(want[k])) if want[k].size and np.all(np.isfinite(want[k])) else 0
            rep.close("%s:%s:%s" % (spec.name, tag, k), got[k], want[k], rtol=tol, atol=tol * 1e-2 * sc, options=opts, inputs=A)

    def sameJ(tag, got, want):
        if want is None:
            return
        for k in want:
            sc = np.max(np.abs(want[k])) if np.all(np.isfinite(want[k])) else 0
            typ = raw[k[0]] / max(np.max(np.abs(p.get_val(k[1]))), 1e-12)
            rep.close("%s:%s:d(%s)" % (spec.name, tag, k[0]), got[k], want[k], rtol=max(tol, 1e-10) * 10, atol=(1e-4 if implicit else 1e-10) * sc + (1e-9 if spec.group else 1e-14) * typ + 1e-300,
                      options=opts, inputs=A, wrt=k[1])
    p.run_model(); same("repeat", spec.outs(p, opts)); rep.event("model_runs")
    # visit B (fresh reference for B too)
    q = spec.problem(copy.deepcopy(opts), B); q.run_model()
    okB = not implicit or converged(q, 1e-5)
    b0 = spec.outs(q, opts)
    JB = q.compute_totals(of=O, wrt=W) if spec.deriv and okB else None
    # the second instance must not have disturbed the first, nor one with other options
    p.run_model(); same("after_other_instance", spec.outs(p, opts))
    o2 = spec.gen_opts(rng)
    q2 = spec.problem(o2, spec.gen_inputs(rng, o2))
    try:
        q2.run_model()
    except (om.AnalysisError, RuntimeError) as ex:
        if not spec.solver or isinstance(ex, RuntimeError) and not isinstance(ex, om.AnalysisError) and not _diverged(ex):
            raise
    rep.event("instances_with_other_options")
    p.run_model(); same("after_instance_with_other_options", spec.outs(p, opts))
    if spec.deriv and rng.random() < .5:
        sameJ("after_instance_with_other_options", p.compute_totals(of=O, wrt=W), J0)
    spec.set(p, B); p.run_model()
    if okB and (not implicit or converged(p, 1e-5)):
        same("B_after_A", spec.outs(p, opts), b0)
        if spec.deriv:
            sameJ("B_after_A", p.compute_totals(of=O, wrt=W), JB)
    spec.set(p, A); p.run_model(); rep.event("model_runs", 3)
    if not implicit or converged(p, 1e-5):
        same("A_after_B", spec.outs(p, opts))
        if spec.deriv:
            sameJ("A_after_B", p.compute_totals(of=O, wrt=W), J0)
    # repeated setup of the very same model
    p.setup()
    spec.set(p, A); spec.guess(p); p.run_model()
    if not implicit or converged(p, 1e-5):
        same("after_resetup", spec.outs(p, opts))
        if spec.deriv:
            sameJ("after_resetup", p.compute_totals(of=O, wrt=W), J0)
    # the caller's option values are untouched
    rep.require("%s:options_mutated" % spec.name, _eq(opts, opts_snapshot), before=opts_snapshot, after=opts)


def _eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def _diverged(ex):
    """a solver's path ran off into points the model has no values for"""
    return isinstance(ex, RuntimeError) and "NaN entries found" in str(ex)


ORACLES = dict(ref=check_ref, deriv=check_deriv, nodes=check_nodes, history=check_history)


def load_all():
    from . import specs  # noqa: F401  (registers everything)
    return REGISTRY


def spec_case(rep, name, oracle, chunk, n, seed):
    """One worker case: n trials of one oracle on one spec."""
    load_all()
    spec = REGISTRY[name]
    for i in range(n):
        rng = rng_for(seed, name, oracle, chunk, i)
        try:
            if spec.solver:
                rep.event("attempts:" + name)
            ORACLES[oracle](rep, spec, rng)
        except HarnessSkip as ex:
            rep.skip(str(ex)[:120])
            return
        except om.AnalysisError:
            # the library declares an iterate it cannot evaluate; only a solver's path through such a point gets here
            if not spec.solver:
                raise
            rep.skip("analysis error while converging: " + spec.name)
        except (KeyError, TypeError, AttributeError, NameError, RuntimeError) as ex:
            if spec.solver and _diverged(ex):
                rep.skip("analysis error while converging: " + spec.name)
                continue
            # an internal building block may be given other names or options; its behaviour is still judged through the public classes
            if repo_frames(ex.__traceback__) or public(spec.cls):
                raise
            rep.skip("internal class %s has another interface: %s" % (spec.name, type(ex).__name__))
            return
