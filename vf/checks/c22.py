"""C22."""
import re
import warnings
import numpy as np
import openmdao.api as om
from ..core import rng_for, HarnessSkip
from ..spec import pick
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ['chiller COP fixed point found by scanning and bisection; ammonia saturation table with natural cubic splines; documented weight relations']


def cases(tier, seed):
    return by_prop("C22", tier, seed, 600, 3000) + [dict(fn="dryout_case", args=dict(seed=seed, n=60 if tier == "quick" else 600)),
                                                       dict(fn="range_case", args=dict(seed=seed, n=80 if tier == "quick" else 800))]


def dryout_case(rep, seed, n):
    """The heat pipe warns exactly when some node asks for more than the stated share of what it can carry at that node."""
    try:
        W, H = pick("openconcept.thermal.heat_pipe:QMaxWarning"), pick("openconcept.thermal:HeatPipe")
    except (ImportError, AttributeError) as ex:
        raise HarnessSkip(str(ex))
    rng = rng_for("C22", "dryout", seed)
    for j in range(n):
        nn = int(rng.choice([1, 2, 3, 5]))
        share = {} if rng.random() < 0.4 else dict(q_max_warn=float(rng.uniform(0.2, 1.0)))
        lim = share.get("q_max_warn", 0.75)
        p = om.Problem(reports=False)
        p.model.add_subsystem("w", (H if j % 3 == 0 else W)(num_nodes=nn, **share), promotes=["*"])
        if j % 3 == 0:
            for k, u, x in (("T_evap", "degC", rng.uniform(0, 70, nn)), ("n_pipes", None, float(rng.integers(1, 30))), ("inner_diam", "m", 0.015), ("length", "m", 5.0),
                            ("T_design", "degC", 60.0), ("q", "W", np.zeros(nn))):
                p.model.set_input_defaults(k, val=x, units=u)
        p.setup()
        f = lim * rng.uniform(0.5, 0.97, nn)
        over = rng.random() < 0.5
        if over:
            f[rng.integers(nn)] = lim * rng.uniform(1.03, 1.6)
        if j % 3 == 0:
            p.run_model()
            q = f * p.get_val("q_max", units="W")
        else:
            qm = rng.uniform(100, 5000, nn)
            p.set_val("q_max", qm, units="W")
            q = f * qm
        p.set_val("q", q, units="W")
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            p.run_model()
        msg = [str(w.message) for w in got if re.search("maximum heat transfer|heat pipe", str(w.message), re.I)]
        rep.require("HeatPipe:warns when and only when a node exceeds its share", bool(msg) == over, warned=bool(msg), shares=f, limit=lim)
        rep.evaluated(("dryout", nn, lim, f.tobytes()))
        rep.event("dryout_warnings" if msg else "no_dryout")


def range_case(rep, seed, n):
    """Stated ranges: a split fraction outside 0-1 at any node is refused and the ends are accepted; the heat pipe's temperature
    range (-10 to 100 degC) is watched at every node, and outside it the model warns and still answers."""
    try:
        F, V, A = (pick(x) for x in ("openconcept.thermal.manifold:FlowSplit", "openconcept.thermal.heat_pipe:HeatPipeVaporTempDrop", "openconcept.thermal.heat_pipe:AmmoniaProperties"))
    except (ImportError, AttributeError) as ex:
        raise HarnessSkip(str(ex))
    rng = rng_for("C22", "range", seed)
    for j in range(n):
        nn = int(rng.choice([1, 2, 3, 5, 9]))
        bad = rng.random() < 0.5
        if j % 2 == 0:
            p = om.Problem(reports=False)
            p.model.add_subsystem("f", F(num_nodes=nn), promotes=["*"])
            p.setup()
            x = np.clip(rng.uniform(-0.2, 1.2, nn), 0, 1)
            if bad:
                x[rng.integers(nn)] = [-10.0 ** rng.uniform(-6, 0.5), 1 + 10.0 ** rng.uniform(-6, 0.5)][int(rng.random() < 0.5)]
            m = rng.uniform(0.1, 5, nn)
            p.set_val("mdot_in", m, units="kg/s"); p.set_val("mdot_split_fraction", x)
            try:
                p.run_model(); refused = False
            except Exception:
                refused = True
            rep.require("FlowSplit:a fraction outside 0-1 is refused, one inside accepted", refused == bad, refused=refused, fractions=x)
            rep.event("refused" if refused else "accepted")
        else:
            T = rng.uniform(-9.5, 99.5, nn)
            if bad:
                T[rng.integers(nn)] = rng.uniform(-70, -10.5) if rng.random() < 0.5 else rng.uniform(100.5, 130)
            p = om.Problem(reports=False)
            p.model.add_subsystem("a", A(num_nodes=nn), promotes=["*"])
            p.model.add_subsystem("v", V(num_nodes=nn), promotes=["*"])
            p.model.set_input_defaults("temp", val=T, units="degC")
            p.setup()
            p.set_val("temp", T, units="degC")
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter("always")
                p.run_model()
            said = any(re.search("temperature", str(w.message)) and re.search("range", str(w.message)) for w in got)
            rep.require("HeatPipe:warns when and only when a node leaves the temperature range", said == bad, warned=said, temperature=T)
            rep.require("HeatPipe:answers outside the temperature range", np.all(np.isfinite(p.get_val("delta_T"))), temperature=T)
            rep.event("range_warnings" if said else "in_range")
        rep.evaluated(("range", j % 2, nn, bad, j))
