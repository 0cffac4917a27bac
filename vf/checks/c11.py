"""C11: selection, interpolation, renaming by reference; dictionary inputs and refusals by a monitor of their own."""
import copy
import numpy as np
import openmdao.api as om
from .common import by_prop, spec_case  # noqa: F401
from ..core import rng_for
from ..spec import pick
RULE = "distinct (class, options, input values) tuples compared with the reference, plus dictionaries walked and out-of-range selections refused"
ASSUMPTIONS = ['unit conversions by a private table of factors']


def _tree(rng, depth=0):
    """random nested aircraft dictionary; returns it and the paths of its entries"""
    d, leaves = {}, []
    for j in range(int(rng.integers(1, 4))):
        k = str(rng.choice(["geom", "wing", "S_ref", "weights", "MTOW", "aero", "prop"])) + "%d" % j
        if depth < 3 and rng.random() < .55:
            sub, lv = _tree(rng, depth + 1)
            d[k] = sub
            leaves += [[k] + x for x in lv]
        else:
            z = rng.integers(4)
            val = [float(rng.uniform(-9, 9)), int(rng.integers(-9, 9)), rng.uniform(-9, 9, int(rng.integers(1, 5))), rng.uniform(-9, 9, (2, 3))][z]
            d[k] = {"value": val}
            if rng.random() < .6:
                d[k]["units"] = str(rng.choice(["kg", "lb", "m", "ft", "m**2", "kW"]))
            leaves.append([k])
    return d, leaves


CONV = {"lb": ("kg", .45359237), "ft": ("m", .3048), "kg": ("lb", 1 / .45359237), "m": ("ft", 1 / .3048)}


def dictionary(rep, n, chunk, seed):
    C = pick("openconcept.utilities:DictIndepVarComp")
    for i in range(n):
        rng = rng_for(seed, "dict", chunk, i)
        d, leaves = _tree(rng)
        sep = str(rng.choice(["|", "|", ":", "/"]))
        if sep == "/":
            sep = "|"
        keep = copy.deepcopy(d)
        chosen = [leaves[j] for j in rng.permutation(len(leaves))[:int(rng.integers(1, len(leaves) + 1))]]
        p = om.Problem(reports=False)
        c = p.model.add_subsystem("data", C(d), promotes=["*"])
        for path in chosen:
            c.add_output_from_dict(sep.join(path)) if sep == "|" else c.add_output_from_dict(sep.join(path), separator=sep)
        # entries that are not there, at every level, and entries without a value
        bad = [sep.join(path[:-1] + ["nothing"]) for path in chosen] + ["nothing"] + [sep.join(path[:-1]) for path in chosen if len(path) > 1]
        for name in bad:
            try:
                c.add_output_from_dict(name, separator=sep)
                rep.violate("DictIndepVarComp:missing_entry_accepted", name=name, tree=d)
            except KeyError:
                rep.event("missing_entry_refused")
            rep.events["oracle_comparisons"] += 1
        p.setup()
        p.run_model()
        for path in chosen:
            e = keep
            for k in path:
                e = e[k]
            name = sep.join(path)
            rep.close("DictIndepVarComp:value", p.get_val(name, units=e.get("units")), e["value"], rtol=1e-14, tree=keep, name=name)
            rep.require("DictIndepVarComp:shape", np.shape(p.get_val(name)) == (np.shape(e["value"]) or (1,)), name=name, shape=np.shape(p.get_val(name)))
            if e.get("units") in CONV:
                u, f = CONV[e["units"]]
                rep.close("DictIndepVarComp:units", p.get_val(name, units=u), np.asarray(e["value"]) * f, rtol=1e-9, tree=keep, name=name)
            rep.event("dictionary_entries")
        rep.require("DictIndepVarComp:dictionary_untouched", _same(d, keep), before=keep, after=d)
        # a user changing the model's value does not change the dictionary either
        for path in chosen:
            v = p.get_val(sep.join(path))
            p.set_val(sep.join(path), np.asarray(v) * 2 + 1)
        p.run_model()
        rep.require("DictIndepVarComp:dictionary_untouched_by_set_val", _same(d, keep), before=keep, after=d)
        rep.evaluated(("dict", repr(keep), sep, chosen))
        rep.sample(cls="DictIndepVarComp", tree=keep, entries=[sep.join(x) for x in chosen])


class _Trajectory:
    """Stand-in for a Dymos trajectory: records the parameters it is given."""

    def __init__(self, phases):
        self._phases = {k: object() for k in phases}
        self.given = {}

    def add_design_parameter(self, name, **kw):
        self.given[name] = kw


def dymos(rep, n, chunk, seed):
    C = pick("openconcept.utilities.dict_indepvarcomp:DymosDesignParamsFromDict")
    for i in range(n):
        rng = rng_for(seed, "dymos", chunk, i)
        d, leaves = _tree(rng)
        keep = copy.deepcopy(d)
        phases = ["p%d" % k for k in range(int(rng.integers(1, 5)))]
        t = _Trajectory(phases)
        c = C(d, t)
        chosen = [leaves[j] for j in rng.permutation(len(leaves))[:int(rng.integers(1, len(leaves) + 1))]]
        for path in chosen:
            name = "|".join(path)
            kw = {k: bool(rng.random() < 0.5) for k in ("opt", "dynamic") if rng.random() < 0.5}
            c.add_output_from_dict(name, **kw)
            e = keep
            for k in path:
                e = e[k]
            got = t.given.get(name)
            if not rep.require("DymosDesignParamsFromDict:entry given to the trajectory", got is not None, name=name, given=list(t.given)):
                continue
            rep.close("DymosDesignParamsFromDict:value", got.get("val"), np.atleast_1d(e["value"]), rtol=1e-14, name=name)
            rep.require("DymosDesignParamsFromDict:units", got.get("units") == e.get("units"), name=name, got=got.get("units"))
            rep.require("DymosDesignParamsFromDict:flags", got.get("opt", False) == kw.get("opt", False) and got.get("dynamic", False) == kw.get("dynamic", False), name=name, got=repr(got))
            rep.require("DymosDesignParamsFromDict:every phase targeted", sorted(got.get("targets", {})) == sorted(phases) and
                        all(list(v) == [name] for v in got["targets"].values()), name=name, got=repr(got.get("targets")))
            try:
                c.add_output_from_dict("|".join(path[:-1] + ["nothing"]))
                rep.violate("DymosDesignParamsFromDict:missing_entry_accepted", name=name)
            except KeyError:
                rep.event("missing_entry_refused")
        rep.require("DymosDesignParamsFromDict:dictionary_untouched", _same(d, keep), before=keep, after=d)
        rep.evaluated(("dymos", repr(keep), chosen, phases))


def _same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    return type(a) is type(b) and np.array_equal(a, b)


def selector(rep, n, chunk, seed):
    """out-of-range selections are reported (an exception or a warning), never silently replaced"""
    import warnings
    S = pick("openconcept.utilities:SelectorComp")
    for i in range(n):
        rng = rng_for(seed, "sel", chunk, i)
        nn, k = int(rng.integers(1, 6)), int(rng.integers(1, 5))
        names = ["in%d" % j for j in range(k)]
        p = om.Problem(reports=False)
        p.model.add_subsystem("s", S(num_nodes=nn, input_names=names, units="m"), promotes=["*"])
        p.setup()
        for nm in names:
            p.set_val(nm, rng.uniform(1, 5, nn))
        sel = rng.integers(0, k, nn).astype(float)
        bad = rng.integers(nn)
        sel[bad] = float(rng.choice([-1, -2.2, k, k + .9, k + 7, -.6]))
        p.set_val("selector", sel)
        told = False
        with warnings.catch_warnings(record=True) as W:
            warnings.simplefilter("always")
            try:
                p.run_model()
            except Exception:   # noqa: B902  any report will do
                told = True
        told = told or len(W) > 0
        rep.require("SelectorComp:out_of_range_selection_unreported", told, selector=sel, inputs=k)
        rep.event("out_of_range_refused" if told else "out_of_range_missed")
        rep.evaluated(("sel", sel.tolist(), k))
    # no inputs at all is refused
    p = om.Problem(reports=False)
    p.model.add_subsystem("s", S(num_nodes=2, input_names=[]), promotes=["*"])
    try:
        p.setup()
        rep.violate("SelectorComp:no_inputs_accepted")
    except ValueError:
        rep.event("no_inputs_refused")


def cases(tier, seed):
    m = 1 if tier == "quick" else 30
    out = by_prop("C11", tier, seed, 1200, 15000)
    out += [dict(fn="dictionary", args=dict(n=60, chunk=c, seed=seed)) for c in range(4 * m)]
    out += [dict(fn="dymos", args=dict(n=40, chunk=c, seed=seed)) for c in range(m)]
    out += [dict(fn="selector", args=dict(n=60, chunk=c, seed=seed)) for c in range(2 * m)]
    return out
