"""C09."""
import numpy as np
import openmdao.api as om
from .common import by_prop, spec_case  # noqa: F401
from ..core import rng_for, HarnessSkip
from ..spec import pick
RULE = "distinct (class, declared equations, input values) tuples on which every output was compared with the declared expression"
ASSUMPTIONS = ['unit conversions by a private table of factors']


def cases(tier, seed):
    return by_prop("C09", tier, seed, 1600, 30000) + [dict(fn="helper_case", args=dict(seed=seed, chunk=c, n=25 if tier == "quick" else 250)) for c in range(4)]


KIND = {"mass": {"kg": 1.0, "lb": 0.45359237, "g": 1e-3}, "length": {"m": 1.0, "ft": 0.3048, "km": 1e3}, "force": {"N": 1.0, "kN": 1e3}, "none": {None: 1.0}}


def helper_case(rep, seed, chunk, n):
    """Sums and multiples made by the aircraft model's helpers (promote_add, promote_mult), also as rates of integrated states."""
    G = pick("openconcept.mission:IntegratorGroup")
    if not (hasattr(G, "promote_add") and hasattr(G, "promote_mult")):
        raise HarnessSkip("no helpers")
    for j in range(n):
        rng = rng_for("C09", "helper", seed, chunk, j)
        nn = int(rng.choice([1, 3, 3, 5, 7, 9]))
        kinds = list(KIND)
        src, prom = {}, {}        # name -> (kind, unit, values)

        def draw(kind, size):
            return kind, list(KIND[kind])[int(rng.integers(len(KIND[kind])))], rng.uniform(-9, 9, size)
        adds, mults = [], []
        for i in range(int(rng.integers(1, 4))):
            kind = kinds[int(rng.integers(len(kinds)))]
            unit = list(KIND[kind])[int(rng.integers(len(KIND[kind])))]
            k, m = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            if k + m == 0:
                k = 1
            single = rng.random() < 0.3 and k + m > 1          # some of the terms are single numbers
            sizes = [nn if (q == 0 or not single or rng.random() < 0.6) else 1 for q in range(k + m)]
            rng.shuffle(sizes)
            names = []
            for q in range(k + m):
                d = src if q < k else prom
                nm = ("out%d" if q < k else "term%d") % len(d)
                d[nm] = draw(kind, sizes[q])
                names.append(nm)
            fac = None if rng.random() < 0.3 else rng.uniform(-3, 3, k + m)
            adds.append((names[:k], names[k:], "sum%d" % i, fac, sizes if single else nn, unit, kind))
        for i in range(int(rng.integers(1, 4))):
            kind = kinds[int(rng.integers(len(kinds)))]
            nm = "out%d" % len(src)
            src[nm] = draw(kind, nn)
            unit = list(KIND[kind])[int(rng.integers(len(KIND[kind])))]
            state = None
            if rng.random() < 0.5 and nn >= 3:
                lo, hi, v0 = -float(rng.uniform(1e5, 1e6)), float(rng.uniform(1e5, 1e6)), float(rng.uniform(-5, 5))
                # a rate of change per second whose antiderivative the scheme represents exactly
                src[nm] = (kind, src[nm][1], rng.uniform(-5, 5) + rng.uniform(-5, 5) * np.linspace(0, 1, nn))
                state = dict(lower=lo, upper=hi, val=v0, promotes=bool(rng.random() < 0.6))
            mults.append((nm, "times%d" % i, float(rng.uniform(-3, 3)), unit, kind, state))

        class Model(G):
            def setup(self):
                for nm, (kind, u, v) in src.items():
                    c = om.IndepVarComp()
                    c.add_output("y", v, units=u)
                    self.add_subsystem("s_" + nm, c)
                for so, pr, out, fac, size, unit, kind in adds:
                    self.promote_add(sources=["s_" + q + ".y" for q in so], prom_name=out, promoted_sources=pr, vec_size=size, units=unit, **({} if fac is None else dict(factors=fac)))
                for nm, out, f, unit, kind, state in mults:
                    kw = {}
                    if state:
                        kw["tags"] = ["integrate", "state_name:q_" + out, "state_lower:%r" % state["lower"], "state_upper:%r" % state["upper"], "state_val:%r" % state["val"], "state_promotes:%s" % state["promotes"]]
                        if kind != "none":
                            kw["tags"].append("state_units:" + unit + "*s")
                    self.promote_mult("s_" + nm + ".y", prom_name=out, factor=f, vec_size=nn, units=unit, **kw)

        p = om.Problem(reports=False)
        for nm, (kind, u, v) in prom.items():
            p.model.add_subsystem("i_" + nm, om.IndepVarComp(nm, v, units=u), promotes=["*"])
        integrated = [m for m in mults if m[5]]
        p.model.add_subsystem("g", Model(num_nodes=nn), promotes_inputs=sorted(prom))
        p.model.nonlinear_solver = om.NonlinearBlockGS(maxiter=4, iprint=-1)
        p.setup()
        where = {}
        for nm, out, f, unit, kind, state in integrated:
            where[out] = "g.q_" + out if state["promotes"] else "g.ode_integ.q_" + out
            meta = p.model.get_io_metadata(iotypes="output", metadata_keys=["lower", "upper", "val"])
            m = meta["g.ode_integ.q_" + out]
            for key in ("lower", "upper", "val"):
                rep.close("state_%s_as_tagged" % key, np.ravel(m[key])[0], state[key], rtol=1e-12, state=state)
        T = float(rng.uniform(1, 9))
        if integrated:
            p.set_val("g.ode_integ.duration", T, units="s")
            q0 = {}
            for nm, out, f, unit, kind, state in integrated:
                q0[out] = float(rng.uniform(-5, 5))
                p.set_val(where[out] + "_initial", q0[out])
        p.run_model()
        val = lambda nm: (src.get(nm) or prom.get(nm))[2] * KIND[(src.get(nm) or prom.get(nm))[0]][(src.get(nm) or prom.get(nm))[1]]  # noqa: E731
        for so, pr, out, fac, size, unit, kind in adds:
            want = sum((1.0 if fac is None else fac[i]) * val(nm) for i, nm in enumerate(so + pr)) / KIND[kind][unit]
            rep.close("promote_add", p.get_val("g." + out), np.broadcast_to(want, (nn,)), rtol=1e-10, atol=1e-9, terms=(so, pr), factors=fac, units=unit)
        for nm, out, f, unit, kind, state in mults:
            want = f * val(nm) / KIND[kind][unit]
            rep.close("promote_mult", p.get_val("g." + out), want, rtol=1e-10, atol=1e-11, source=nm, factor=f, units=unit)
            if state:
                x = np.linspace(0, 1, nn)
                slope = want[-1] - want[0]
                rep.close("promote_mult:state", p.get_val(where[out]), q0[out] + T * (want[0] * x + slope * x**2 / 2), rtol=1e-9, atol=1e-9, factor=f, units=unit, duration=T)
                rep.close("promote_mult:final", p.get_val(where[out] + "_final"), q0[out] + T * (want[0] + slope / 2), rtol=1e-9, atol=1e-9)
        rep.evaluated(("helper", j, chunk, str(adds), str(mults)))
        rep.event("helper_sums", len(adds)); rep.event("helper_multiples", len(mults)); rep.event("helper_states", len(integrated))
