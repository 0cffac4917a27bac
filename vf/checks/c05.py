"""C05: state continuity across linked phases, skipped states, duration wiring.

Random trajectories (phases made of random trees of groups, IntegratorGroups and Integrators, with random
promotions, units, node counts, couplings and links) are run through the real PhaseGroup/IntegratorGroup/
TrajectoryGroup; a monitor reads every state's start, history and end and the observed rates and durations."""
import numpy as np
import openmdao.api as om
from ..core import rng_for, HarnessSkip
from ..specs.calculus import weights

RULE = "distinct random trajectories (tree shape, states, promotions, units, node counts, links, skips, durations)"
ASSUMPTIONS = ["a state is identified by its path relative to its phase (the documented rule)",
               "phases are direct children of the TrajectoryGroup, as link_phases documents"]
US = {"kg": ["kg", "lb", "g"], "m": ["m", "ft", "km"], "J": ["J", "kW*h", "MJ"], "m/s": ["m/s", "kn"], None: [None]}
TU = ["s", "min", "h"]


def cases(tier, seed):
    n = 400 if tier == "quick" else 6000
    ch = 10 if tier == "quick" else 25
    out = [dict(fn="trajectory", args=dict(seed=seed, k=k, n=ch)) for k in range(n // ch)]
    out += [dict(fn="errors", args=dict(seed=seed, k=k)) for k in range(2 if tier == "quick" else 20)]
    return out


def _rate_comp(base):
    class Rate(base):
        """d(state)/dt = a + b*t + c*state, per node; the state feeds back when coupled."""

        def initialize(self):
            self.options.declare("spec")
            self.options.declare("nn")

        def setup(self):
            nn = self.options["nn"]
            for st in self.options["spec"]:
                tags = ["integrate", "state_name:" + st["name"]]
                if st["units"]:
                    tags.append("state_units:" + st["units"])
                if st["promote"]:
                    tags.append("state_promotes:True")
                if st["val"] is not None:
                    tags.append("state_val:%r" % st["val"])
                if st["bounds"]:
                    tags += ["state_lower:-1e25", "state_upper:1e25"]
                self.add_output(st["rate"], val=np.ones(nn), units=st["runits"], tags=tags)
                self.add_input(st["rate"] + "_in", val=np.array(st["rates"]), units=st["runits"])
                self.declare_partials(st["rate"], st["rate"] + "_in", rows=np.arange(nn), cols=np.arange(nn), val=1.0)
                if st["fb"]:
                    self.add_input(st["rate"] + "_fb", val=np.zeros(nn), units=st["units"])
                    self.declare_partials(st["rate"], st["rate"] + "_fb", rows=np.arange(nn), cols=np.arange(nn), val=st["fb"])

        def compute(self, inputs, outputs):
            for st in self.options["spec"]:
                outputs[st["rate"]] = inputs[st["rate"] + "_in"]
                if st["fb"]:
                    outputs[st["rate"]] += st["fb"] * inputs[st["rate"] + "_fb"]
    return Rate


def _ratio(units, runits_num, tu):
    return (runits_num + "/" + tu) if units else "1/" + tu


class _Tree:
    """One random layout, shared by the phases of a trajectory; each phase picks a subset of the leaves."""

    def __init__(self, rng):
        self.rng = rng
        self.leaves = []
        self.uid = 0
        self.root = self.node(0)

    def node(self, depth):
        r = self.rng
        kind = "group" if depth == 0 else r.choice(["group", "ig", "ig", "integ"] if depth < 3 else ["ig", "integ"])
        self.uid += 1
        nd = dict(kind=str(kind), name=str(r.choice(["ac", "prop", "b", "model", "sys"])) + str(self.uid), kids=[], states=[], uid=self.uid,
                  time_units=str(r.choice(TU)))
        if kind == "group":
            for _ in range(int(r.integers(1, 4 if depth == 0 else 3))):
                nd["kids"].append(self.node(depth + 1))
        else:
            # two leaves may well use the same state names (told apart by their paths)
            for i in range(int(r.integers(0 if kind == "ig" else 1, 4))):
                base = r.choice(["kg", "m", "J", "m/s", ""])
                base = base or None
                nm = ["f", "fltcond|h", "range", "f2"][i]
                nd["states"].append(dict(name=nm, base=base, units=None, rate="d_%s_dt" % nm.replace("|", "_"), promote=False, fb=0.0))
            if kind == "ig" and depth < 3 and r.random() < 0.3:
                nd["kids"].append(self.node(depth + 1))
        return nd


def _add_to(grp, nd, ph, rng, nn, prefix, opts, log):
    from openconcept.mission import IntegratorGroup
    from openconcept.utilities import Integrator
    Rate = opts["Rate"]
    here = (prefix + "." if prefix else "") + nd["name"]
    drop = opts["drop"]
    if nd["kind"] == "group":
        g = om.Group()
        for kid in nd["kids"]:
            if kid["uid"] not in drop:
                _add_to(g, kid, ph, rng, nn, here, opts, log)
    elif nd["kind"] == "integ":
        g = om.Group()
        method = opts["method"][nd["uid"]]
        integ = Integrator(num_nodes=nn, method=method, time_setup="duration", diff_units=nd["tu"])
        for st in nd["st"]:
            integ.add_integrand(st["name"], rate_name=st["rate"], val=st["val"] if st["val"] is not None else 0.0, units=st["units"])
            g.add_subsystem("ivc_" + st["rate"], om.IndepVarComp("r", np.array(st["rates"]), units=st["runits"]))
            g.connect("ivc_%s.r" % st["rate"], "integ." + st["rate"])
            log["states"].append(dict(path=here + ".integ." + st["name"], st=st, rate=here + ".ivc_%s.r" % st["rate"], tu=nd["tu"],
                                      dur=here + ".integ.duration", method=method))
        g.add_subsystem("integ", integ, promotes_inputs=["duration"] if nd["promdur"] else [])
    else:
        class IG(IntegratorGroup):
            def setup(self):
                if nd["st"]:
                    spec = nd["st"]
                    comps = [spec] if not nd["split"] else [[s] for s in spec]
                    for i, c in enumerate(comps):
                        pr = [(s["rate"], s["rprom"]) if s["rprom"] != s["rate"] else s["rate"] for s in c if s["rprom"]]
                        self.add_subsystem("rates%d" % i, Rate(spec=c, nn=nn), promotes_outputs=pr)
                        for s in c:
                            if s["fb"]:
                                self.connect(s["name"] if s["promote"] else "ode_integ." + s["name"], "rates%d.%s_fb" % (i, s["rate"]))
                for kid in nd["kids"]:
                    if kid["uid"] not in drop:
                        _add_to(self, kid, ph, rng, nn, here, opts, log)
        kw = {} if nd["tu"] == "s" and nd["uid"] % 2 else dict(time_units=nd["tu"])
        g = IG(num_nodes=nn, **kw)
        for i, st in enumerate(nd["st"]):
            log["states"].append(dict(path=here + ".ode_integ." + st["name"], st=st,
                                      rate=here + ".rates%d.%s" % (i if nd["split"] else 0, st["rate"]), tu=nd["tu"],
                                      dur=here + ".ode_integ.duration", method="simpson"))
    pi, po = [], []
    for st in nd.get("st", []):
        if st.get("up"):           # states the tag promoted to the group, taken one level further
            po += [st["name"], st["name"] + "_final"]
            pi += [st["name"] + "_initial"]
    if _exposes(nd, drop):
        pi.append("duration")
    grp.add_subsystem(nd["name"], g, promotes_inputs=pi, promotes_outputs=po)


def _exposes(nd, drop):
    """Is a 'duration' input visible at this node's level, and does the layout promote it further up?"""
    inner = (nd["kind"] == "integ" and nd["promdur"]) or (nd["kind"] in ("group", "ig") and any(_exposes(c, drop) for c in nd["kids"] if c["uid"] not in drop))
    return bool(inner and nd["updur"])


def _draw(nd, rng, nn, drop, used, dsec):
    """Per-phase values of one layout: units, rates, promotions."""
    nd["tu"] = str(rng.choice(TU))
    nd["promdur"] = bool(rng.random() < 0.5)
    nd["updur"] = bool(rng.random() < 0.7)
    nd["split"] = bool(rng.random() < 0.5)
    nd["st"] = []
    for s in nd["states"]:
        if s.get("only") is not None and not s["only"]:
            continue
        u = s["base"] and str(rng.choice(US[s["base"]]))
        rt = str(rng.choice(TU))
        st = dict(name=s["name"], rate=s["rate"], units=u, base=s["base"], runits=("%s/%s" % (u, rt)) if u and rng.random() < 0.5 else (("%s/%s" % (u, nd["tu"])) if u else "1/" + nd["tu"]),
                  rates=rng.uniform(-3, 5, nn).tolist(), val=None if rng.random() < 0.5 else float(np.round(rng.uniform(-5, 5), 3)),
                  bounds=bool(rng.random() < 0.3), promote=bool(s["promote"]), rprom=None if rng.random() < 0.5 else s["rate"], fb=0.0, up=False)
        if s["fbk"] and u and nd["kind"] == "ig":
            # the feedback over the phase stays of order one, whatever the units of the rate
            ru = st["runits"].split("/")
            st["fb"] = float(rng.uniform(-0.5, 0.5)) / om.convert_units(dsec, "s", ru[-1]) * om.convert_units(1.0, u, "/".join(ru[:-1]))
        if st["promote"] and nd["kind"] == "ig":
            used.add((nd["uid"], s["name"]))
        if st["promote"] and nd["kind"] == "ig" and s["upk"] and (nd["parent"], s["name"]) not in used:
            st["up"] = True
            used.add((nd["parent"], s["name"]))
        nd["st"].append(st)
    for kid in nd["kids"]:
        kid["parent"] = nd["uid"]
        if kid["uid"] not in drop:
            _draw(kid, rng, nn, drop, used, dsec)


def _walk(nd):
    yield nd
    for k in nd["kids"]:
        yield from _walk(k)


def trajectory(rep, seed, k, n):
    for i in range(n):
        _one(rep, rng_for(seed, "c05", k, i), (seed, k, i))


def _one(rep, rng, tag):
    from openconcept.mission import PhaseGroup, TrajectoryGroup
    tree = _Tree(rng)
    for nd in _walk(tree.root):
        for s in nd["states"]:
            s["promote"] = rng.random() < 0.4
            s["fbk"] = rng.random() < 0.25
            s["upk"] = rng.random() < 0.5
    leaves = [nd for nd in _walk(tree.root) if nd["kind"] != "group"]
    nph = int(rng.integers(2, 5))
    Rate = _rate_comp(om.ExplicitComponent)
    phases, logs, durs = [], [], []
    for ip in range(nph):
        nn = int(rng.choice([1, 3, 5, 11]))
        # some leaves are missing from some phases
        drop = {nd["uid"] for nd in leaves if rng.random() < 0.2}
        for nd in leaves:
            for s in nd["states"]:
                s["only"] = bool(rng.random() < 0.85)
        tree.root["parent"] = 0
        dval, du = float(rng.uniform(0.2, 8)), str(rng.choice(TU))
        _draw(tree.root, rng, nn, drop, set(), om.convert_units(dval, du, "s"))
        for nd in _walk(tree.root):
            if nd["kind"] == "integ" and not nd.get("st"):
                drop.add(nd["uid"])
        log = dict(states=[])
        import copy
        snap = copy.deepcopy(tree.root)
        opts = dict(Rate=Rate, drop=drop,
                    method={nd["uid"]: str(rng.choice(["simpson", "bdf3"])) if nn > 3 else "simpson" for nd in _walk(tree.root)})
        how = int(rng.integers(0, 3))

        class Phase(PhaseGroup):
            _s, _o, _l, _n, _d, _h = snap, opts, log, nn, (dval, du), how

            def setup(self):
                if self._h == 0:
                    self.add_subsystem("ivc", om.IndepVarComp("duration", val=self._d[0], units=self._d[1]), promotes_outputs=["duration"])
                elif self._h == 1:
                    self.add_subsystem("ivc", om.IndepVarComp("T", val=self._d[0] / 2, units=self._d[1]))
                    self.add_subsystem("dur", om.ExecComp("duration=2*T", duration={"units": self._d[1]}, T={"units": self._d[1]}), promotes_outputs=["duration"])
                    self.connect("ivc.T", "dur.T")
                else:
                    self.add_subsystem("ivc", om.IndepVarComp("time", val=self._d[0], units=self._d[1]), promotes_outputs=[("time", "duration")])
                self._l["states"].clear()
                for kid in self._s["kids"]:
                    if kid["uid"] not in self._o["drop"]:
                        _add_to(self, kid, self, rng, self._n, "", self._o, self._l)
        phases.append((Phase, nn)); logs.append(log); durs.append((dval, du))
    links = []
    for a in range(nph):
        for b in range(a + 1, nph):
            if (b == a + 1 and rng.random() < 0.8) or (b > a + 1 and rng.random() < 0.15):
                if not any(l[1] == b for l in links):        # a start has one source
                    links.append((a, b))
    nest = int(rng.integers(0, 3))
    skips = {}
    names = ["p%d" % j if rng.random() < 0.7 else ["climb", "cruise", "cruise2", "descent"][j] for j in range(nph)]
    allpaths = {}

    def fill(self):
        objs = []
        for nm, (P, nn) in zip(names, phases):
            objs.append(self.add_subsystem(nm, P(num_nodes=nn)))
        for a, b in links:
            sk = skips.get((a, b))
            if sk is None:
                self.link_phases(objs[a], objs[b])
            else:
                self.link_phases(objs[a], objs[b], states_to_skip=list(sk))

    class Dynamic(TrajectoryGroup):
        def setup(self):
            fill(self)
    static, again = bool(rng.random() < .3), bool(rng.random() < .3)

    def Traj():
        if not static:
            return Dynamic()
        t = TrajectoryGroup()      # phases and links added from outside, before setup
        fill(t)
        return t

    def build():
        p = om.Problem(reports=False)
        if nest == 0:
            p.model = Traj()
            pre = ""
        elif nest == 1:
            p.model.add_subsystem("mission", Traj()); pre = "mission."
        else:
            g = p.model.add_subsystem("outer", om.Group()); g.add_subsystem("traj", Traj()); pre = "outer.traj."
        p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=20, atol=1e-11, rtol=1e-13, iprint=-1)
        p.model.linear_solver = om.DirectSolver()
        return p, pre
    # first build finds the state paths (they are filled in by setup), second one has the skip lists
    p, pre = build()
    p.setup(); p.final_setup()
    paths = [{s["path"]: s for s in log["states"]} for log in logs]
    skipped = {}
    for a, b in links:
        common = [x for x in paths[a] if x in paths[b]]
        if common and rng.random() < 0.5:
            ch = [c for c in common if rng.random() < 0.5]
            lst = []
            for c in ch:
                full = pre + names[a] + "." + c
                prom = p.model._resolver.abs2prom(full, "output") if hasattr(p.model, "_resolver") else p.model._var_abs2prom["output"][full]
                # a promoted name is as good as the path, when it names this state within the phase
                if prom.startswith(pre + names[a] + "."):
                    prom = prom[len(pre + names[a]) + 1:]
                if rng.random() < 0.5 and prom not in paths[a]:
                    lst.append(prom)
                else:
                    lst.append(c)
            if rng.random() < 0.3:
                lst.append("no.such.state")
            skips[(a, b)] = lst
            skipped[(a, b)] = set(ch)
    p, pre = build()
    p.setup(force_alloc_complex=False)
    p.final_setup()
    if again:
        rep.event("repeated_setups")
        p.setup()
        p.final_setup()
    rep.event("links_added_before_setup" if static else "links_added_in_setup")
    linked = {}
    for a, b in links:
        for x in paths[a]:
            if x in paths[b] and x not in skipped.get((a, b), ()):
                linked[(b, x)] = a
    start = {}
    for j in range(nph):
        for x, s in paths[j].items():
            if (j, x) not in linked:
                if rng.random() < 0.7:
                    v = float(rng.uniform(-20, 20))
                    p.set_val(pre + names[j] + "." + x + "_initial", v, units=s["st"]["base"])
                    start[(j, x)] = v
                else:
                    start[(j, x)] = None
    p.run_model()
    rep.event("model_runs"); rep.event("links", len(links)); rep.event("nest_%d" % nest)
    tree_key = [(j, sorted((x, s["st"]["units"], s["tu"], s["st"]["promote"], s["st"]["up"]) for x, s in paths[j].items())) for j in range(nph)]
    rep.evaluated((tree_key, links, sorted((k, sorted(v)) for k, v in skipped.items()), durs))
    det = dict(names=names, links=links, skips={"%d-%d" % k: v for k, v in skips.items()}, paths=[sorted(x) for x in paths], tag=tag)
    rep.sample(**det)
    for j in range(nph):
        dsec = p.get_val(pre + names[j] + ".duration", units="s").item()
        rep.close("duration:value", dsec, om.convert_units(durs[j][0], durs[j][1], "s"), rtol=1e-4)
        for x, s in paths[j].items():
            b = s["st"]["base"]
            full = pre + names[j] + "." + x
            st0 = p.get_val(full + "_initial", units=b).item()
            end = p.get_val(full + "_final", units=b).item()
            hist = p.get_val(full, units=b)
            rate = p.get_val(pre + names[j] + "." + s["rate"], units=(b + "/s") if b else "1/s")
            nn = phases[j][1]
            rep.close("duration:reaches_every_integrator", p.get_val(pre + names[j] + "." + s["dur"], units="s").item(), dsec, rtol=1e-9, state=x, phase=j, **det)
            scale = max(1.0, abs(st0), float(np.max(np.abs(rate))) * dsec)
            rep.event("states_observed")
            W = weights(s["method"], nn) if nn > 1 else np.zeros((1, 1))
            want = st0 + W @ rate * (dsec / max(nn - 1, 1))
            rep.close("history:%s" % s["method"], hist, want, rtol=1e-8, scale=scale, state=x, phase=j, duration=dsec, **det)
            rep.close("end:is_last_node", end, hist[-1], rtol=1e-9, scale=scale, state=x, phase=j)
            if (j, x) in linked:
                a = linked[(j, x)]
                rep.event("links_observed")
                rep.close("linked:start_equals_previous_end", st0, p.get_val(pre + names[a] + "." + x + "_final", units=b).item(), rtol=1e-9, scale=scale * 1e-3,
                          state=x, from_phase=a, to_phase=j, **det)
            else:
                rep.event("unlinked_observed")
                if start[(j, x)] is not None:
                    rep.close("unlinked:start_keeps_its_value", st0, start[(j, x)], rtol=1e-9, scale=1e-6, state=x, phase=j, **det)
                else:
                    # nothing was set: what the integrator declares
                    rep.close("unlinked:default_start", st0, 0.0, atol=1e-12, state=x, phase=j, **det)
            if (j, x) in linked and nn >= 1:
                rep.close("linked:first_node_continuous", hist[0], p.get_val(pre + names[linked[(j, x)]] + "." + x, units=b)[-1], rtol=1e-8, scale=scale, state=x)


def errors(rep, seed, k):
    """Misuse that must be reported rather than silently dropped."""
    from openconcept.mission import PhaseGroup, TrajectoryGroup, IntegratorGroup
    rng = rng_for(seed, "c05e", k)
    g, ph = om.Group(), PhaseGroup(num_nodes=3)
    t = TrajectoryGroup()
    for a, b in ((g, ph), (ph, g), (g, g), (om.ExecComp("y=x"), ph)):
        try:
            t.link_phases(a, b); ok = False
        except ValueError:
            ok = True
        rep.require("misuse:link_phases_needs_phases", ok)
    rep.evaluated(("errors", k))

    def integ(rate_tags, nn=3, units="kg/s"):
        class IG(IntegratorGroup):
            def setup(self):
                self.add_subsystem("c", om.ExecComp("df=2*x", df={"val": np.ones(nn), "units": units, "tags": rate_tags}, x={"val": np.ones(nn), "units": "s"}, has_diag_partials=True))
        return IG(num_nodes=nn)

    def try_(grp, duration=True):
        p = om.Problem(reports=False)
        ph = PhaseGroup(num_nodes=3)
        if duration:
            ph.add_subsystem("ivc", om.IndepVarComp("duration", 5.0, units="s"), promotes=["*"])
        ph.add_subsystem("g", grp)
        p.model.add_subsystem("ph", ph)
        try:
            p.setup(); p.final_setup(); p.run_model()
            return True
        except Exception:
            return False
    good = ["integrate", "state_name:f", "state_units:kg"]
    rep.require("misuse:sound_model_runs", try_(integ(good)))
    rep.require("misuse:missing_state_name_reported", not try_(integ(["integrate", "state_units:kg"])))
    rep.require("misuse:missing_duration_reported", not try_(integ(good), duration=False))
