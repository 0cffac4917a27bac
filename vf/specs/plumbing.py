"""Algebra, joining/splitting, selection and renaming components (C09-C11) under random declarations."""
import copy
import numpy as np
import openmdao.api as om
from ..spec import Spec, U, CH, MIX, LU, pick

# value of one unit in base units, and its dimension (length, mass, time)
UT = {None: (1.0, (0, 0, 0)), "m": (1.0, (1, 0, 0)), "ft": (0.3048, (1, 0, 0)), "km": (1e3, (1, 0, 0)), "kg": (1.0, (0, 1, 0)), "lbm": (0.45359237, (0, 1, 0)),
      "s": (1.0, (0, 0, 1)), "min": (60.0, (0, 0, 1)), "h": (3600.0, (0, 0, 1)), "m/s": (1.0, (1, 0, -1)), "ft/s": (0.3048, (1, 0, -1)),
      "N": (1.0, (1, 1, -2)), "kN": (1e3, (1, 1, -2))}
LIKE = {(1, 0, 0): ["m", "ft", "km"], (0, 1, 0): ["kg", "lbm"], (0, 0, 1): ["s", "min", "h"], (1, 0, -1): ["m/s", "ft/s"], (1, 1, -2): ["N", "kN"], (0, 0, 0): [None]}


def like(r, u):
    """another unit of the same dimension, in which the user happens to supply the value"""
    return LIKE[UT[u][1]][r.integers(len(LIKE[UT[u][1]]))]


def _shape(n, length):
    return (n,) if length == 1 else (n, length)


def _sizes(r, k):
    """vec_size declaration and the per-input lengths"""
    n = int(r.choice([1, 2, 3, 7]))
    if r.random() < .5:
        return n, [n] * k, n
    v = [int(n if r.random() < .5 else 1) for _ in range(k)]
    return v, v, max(v)


# ---- C09
def _alg_opts(kind):
    def f(r):
        eqs, used = [], 0
        for e in range(int(r.integers(1, 4))):
            k = int(r.integers(1, 5))
            vs, sizes, n = _sizes(r, k)
            q = dict(output_name="out%d" % e, input_names=["in%d_%d" % (e, j) for j in range(k)], vec_size=vs, length=int(r.choice([1, 1, 1, 2, 3])))
            us = [u for u in UT]
            if kind == "add":
                if r.random() < .6:
                    q["units"] = us[r.integers(len(us))]
                if r.random() < .6:
                    q["scaling_factors"] = [float(x) for x in r.choice([1, -1, 2.5, -.3, 0.0], k)]
            else:
                if r.random() < .6:
                    q["divide"] = [bool(x) for x in r.random(k) < .4]
                if r.random() < .6:
                    q["input_units"] = [us[r.integers(len(us))] for _ in range(k)]
                if r.random() < .4:
                    q["scaling_factor"] = float(r.choice([-1, .5, 3.0]))
            if k == 1 and r.random() < .3 and not isinstance(vs, list) and "divide" not in q and "input_units" not in q and "scaling_factors" not in q:
                q["input_names"] = q["input_names"][0]        # a bare name instead of a list
            q["_sizes"], q["_n"] = sizes, n
            q["_given"] = [like(r, q.get("units")) if kind == "add" else like(r, q.get("input_units", [None] * k)[j]) for j in range(k)]
            eqs.append(q)
        return dict(eqs=eqs, one_line=len(eqs) == 1 and r.random() < .5)
    return f


def _names(q):
    return [q["input_names"]] if isinstance(q["input_names"], str) else q["input_names"]


def _alg_I(lo, hi, zero=False):
    def f(o):
        I = {}
        for q in o["eqs"]:
            for j, nm in enumerate(_names(q)):
                I[nm] = (q["_given"][j], _shape(q["_sizes"][j], q["length"]), MIX(U(-hi, hi), CH(0.0, 1.0)) if zero else MIX(U(lo, hi), U(-hi, -lo)))
        return I
    return f


def _clean(q):
    # sizes of one are the default and left out
    return {k: copy.deepcopy(v) for k, v in q.items() if k[0] != "_" and not (k in ("vec_size", "length") and v == 1 and not isinstance(v, list))}


def _alg_build(cls):
    def f(o):
        if o["one_line"]:
            return pick(cls)(**_clean(o["eqs"][0]))
        c = pick(cls)()
        for q in o["eqs"]:
            c.add_equation(**_clean(q))
        return c
    return f


def _add_ref(i, o):
    out = {}
    for q in o["eqs"]:
        t = np.zeros(_shape(q["_n"], q["length"]))
        for j, nm in enumerate(_names(q)):
            conv = UT[q["_given"][j]][0] / UT[q.get("units")][0]
            t = t + q.get("scaling_factors", [1] * 9)[j] * conv * i[nm]
        out[q["output_name"]] = t
    return out


def _mul_ref(i, o):
    """in base units, the units of the output being the declared input units' product"""
    out = {}
    for q in o["eqs"]:
        t = np.full(_shape(q["_n"], q["length"]), float(q.get("scaling_factor", 1)))
        for j, nm in enumerate(_names(q)):
            x = i[nm] * UT[q["_given"][j]][0] / UT[q.get("input_units", [None] * 9)[j]][0]
            t = t / x if q.get("divide", [False] * 9)[j] else t * x
        out[q["output_name"]] = t
    return out


BASE = ("m", "kg", "s")


def _mul_units(o):
    """the output must carry the product's dimension: ask for it in an equivalent unit spelled from base units"""
    U_ = {}
    for q in o["eqs"]:
        d = np.zeros(3, int)
        for j, nm in enumerate(_names(q)):
            u = q.get("input_units", [None] * 9)[j]
            d += (-1 if q.get("divide", [False] * 9)[j] else 1) * np.array(UT[u][1])
        U_[q["output_name"]] = "*".join("%s**%d" % (b, e) for b, e in zip(BASE, d) if e) or None
    return U_


def _mul_out_ref(i, o):
    out = _mul_ref(i, o)
    u = _mul_units(o)
    for q in o["eqs"]:
        if u[q["output_name"]] is None:
            f = 1.0
            for j, nm in enumerate(_names(q)):
                s = UT[q.get("input_units", [None] * 9)[j]][0]
                f = f / s if q.get("divide", [False] * 9)[j] else f * s
            if not any(UT[x][1] != (0, 0, 0) or x for x in q.get("input_units", [None])):
                f = 1.0
            out[q["output_name"]] = out[q["output_name"]] * (1.0 if o.get("_raw") else 1.0) if f == 1.0 else out[q["output_name"]]
            continue
        f = 1.0
        for j, nm in enumerate(_names(q)):
            s = UT[q.get("input_units", [None] * 9)[j]][0]
            f = f / s if q.get("divide", [False] * 9)[j] else f * s
        out[q["output_name"]] = out[q["output_name"]] * f
    return out


Spec("openconcept.utilities:AddSubtractComp", "C09", _alg_I(0, 50, True), lambda o: {q["output_name"]: q.get("units") for q in o["eqs"]}, opts=_alg_opts("add"), nn=None,
     build=_alg_build("openconcept.utilities:AddSubtractComp"), ref=_add_ref, rtol=1e-10, refscale=lambda k, w: np.abs(w).max(), atol=1e-9, pointwise=False)
Spec("openconcept.utilities:ElementMultiplyDivideComp", "C09", _alg_I(.2, 5), _mul_units, opts=_alg_opts("mul"), nn=None,
     build=_alg_build("openconcept.utilities:ElementMultiplyDivideComp"), ref=_mul_out_ref, rtol=1e-10, pointwise=False)


# ---- C10
def _cat_opts(r):
    rel = []
    for e in range(int(r.integers(1, 4))):
        k = int(r.integers(1, 5))
        q = dict(whole="w%d" % e, parts=["p%d_%d" % (e, j) for j in range(k)], vec_sizes=[int(x) for x in r.integers(1, 6, k)], length=int(r.choice([1, 1, 2, 3])))
        if r.random() < .6:
            q["units"] = list(UT)[r.integers(len(UT))]
        q["_given"] = like(r, q.get("units"))
        rel.append(q)
    return dict(rel=rel, one_line=len(rel) == 1 and r.random() < .5)


def _cat_build(o):
    c = pick("openconcept.utilities:VectorConcatenateComp")
    kw = [dict(output_name=q["whole"], input_names=list(q["parts"]), vec_sizes=list(q["vec_sizes"]), **({"length": q["length"]} if q["length"] != 1 else {}), **({"units": q["units"]} if "units" in q else {})) for q in o["rel"]]
    if o["one_line"]:
        return c(**kw[0])
    c = c()
    for k in kw:
        c.add_relation(**k)
    return c


def _split_build(o):
    c = pick("openconcept.utilities:VectorSplitComp")
    kw = [dict(output_names=list(q["parts"]), input_name=q["whole"], vec_sizes=list(q["vec_sizes"]), **({"length": q["length"]} if q["length"] != 1 else {}), **({"units": q["units"]} if "units" in q else {})) for q in o["rel"]]
    if o["one_line"]:
        return c(**kw[0])
    c = c()
    for k in kw:
        c.add_relation(**k)
    return c


def _conv(q):
    return UT[q["_given"]][0] / UT[q.get("units")][0]


Spec("openconcept.utilities:VectorConcatenateComp", "C10", lambda o: {p: (q["_given"], _shape(n, q["length"]), U(-50, 50)) for q in o["rel"] for p, n in zip(q["parts"], q["vec_sizes"])},
     lambda o: {q["whole"]: q.get("units") for q in o["rel"]}, opts=_cat_opts, nn=None, build=_cat_build, pointwise=False, rtol=1e-12, atol=1e-12,
     ref=lambda i, o: {q["whole"]: np.concatenate([i[p] for p in q["parts"]]) * _conv(q) for q in o["rel"]})


def _slices(q, x):
    b = np.cumsum([0] + q["vec_sizes"])
    return {p: x[b[j]:b[j + 1]] for j, p in enumerate(q["parts"])}


Spec("openconcept.utilities:VectorSplitComp", "C10", lambda o: {q["whole"]: (q["_given"], _shape(sum(q["vec_sizes"]), q["length"]), U(-50, 50)) for q in o["rel"]},
     lambda o: {p: q.get("units") for q in o["rel"] for p in q["parts"]}, opts=_cat_opts, nn=None, build=_split_build, pointwise=False, rtol=1e-12, atol=1e-12,
     ref=lambda i, o: {p: v * _conv(q) for q in o["rel"] for p, v in _slices(q, i[q["whole"]]).items()})


def _round_build(o):
    """split then join again: the identity"""
    class RoundTrip(om.Group):
        def setup(self):
            self.add_subsystem("split", _split_build(o), promotes_inputs=["*"])
            o2 = dict(o, rel=[dict(q, whole="again_" + q["whole"]) for q in o["rel"]])
            self.add_subsystem("join", _cat_build(o2), promotes_outputs=["*"])
            for q in o["rel"]:
                for p in q["parts"]:
                    self.connect("split." + p, "join." + p)
    return RoundTrip()


Spec("vf:RoundTrip", "C10", lambda o: {q["whole"]: (q["_given"], _shape(sum(q["vec_sizes"]), q["length"]), U(-50, 50)) for q in o["rel"]},
     lambda o: {"again_" + q["whole"]: q["_given"] for q in o["rel"]}, opts=_cat_opts, nn=None, build=_round_build, pointwise=False, rtol=1e-12, atol=1e-12, name="Split+Concatenate",
     group=True, ref=lambda i, o: {"again_" + q["whole"]: i[q["whole"]] for q in o["rel"]})


def _no_ties(v):
    return dict(v, array=v["array"] + np.arange(v["array"].size) * np.pi * (1 + np.abs(v["array"]).max()))


EX = {"array": ("m", "n", MIX(U(-50, 50), U(-1e-3, 1e-3), CH(0.0)))}
Spec("openconcept.utilities:MaxComp", "C10", EX, {"max": "m"}, opts=lambda r: {"units": "m"}, ref=lambda i, o: {"max": np.sort(i["array"])[-1:]}, pointwise=False, dfix=_no_ties)
Spec("openconcept.utilities:MinComp", "C10", EX, {"min": "m"}, opts=lambda r: {"units": "m"}, ref=lambda i, o: {"min": np.sort(i["array"])[:1]}, pointwise=False, dfix=_no_ties)
# the same inputs, connected in another unit than the component's
Spec("openconcept.utilities:MaxComp", "C10", {"array": ("ft", "n", U(-50, 50))}, {"max": "ft"}, opts=lambda r: {"units": "m"}, ref=lambda i, o: {"max": np.sort(i["array"])[-1:]}, pointwise=False, name="MaxComp_units", deriv=False)
Spec("openconcept.utilities:MinComp", "C10", {"array": ("ft", "n", U(-50, 50))}, {"min": "ft"}, opts=lambda r: {"units": "m"}, ref=lambda i, o: {"min": np.sort(i["array"])[:1]}, pointwise=False, name="MinComp_units", deriv=False)


# ---- C11
def _sel_I(o):
    I = {k: ("kg", "n", U(-50, 50)) for k in o["input_names"]}
    I["selector"] = (None, "n", MIX(CH(*range(len(o["input_names"]))), U(-.4, len(o["input_names"]) - .6)))
    return I


def _sel_fix(v, o, rng):
    s = v["selector"]
    v["selector"] = np.where(np.abs(s - np.floor(s) - .5) < .02, np.floor(s) + .5 + .05 * np.sign(s - np.floor(s) - .5 + 1e-9), s)   # not on a tie
    v["selector"] = np.clip(v["selector"], -.45, len(o["input_names"]) - .55)
    return v


Spec("openconcept.utilities:SelectorComp", "C11", _sel_I, {"result": "kg"}, opts=lambda r: {"input_names": ["A", "B", "C", "D", "E"][:int(r.integers(1, 6))], "units": "kg"}, fixup=_sel_fix,
     nodiff=("selector",), D={"selector": 0.0},
     ref=lambda i, o: {"result": np.array([i[o["input_names"][int(np.floor(s + .5))]][j] for j, s in enumerate(i["selector"])])})
Spec("openconcept.utilities:LinearInterpolator", "C11", {"start_val": ("m", None, MIX(U(-500, 500), CH(0.0))), "end_val": ("km", None, MIX(U(-5, 5), CH(0.0)))}, {"vec": "m"},
     opts=lambda r: {"units": str(r.choice(["m", "ft", "km"]))}, nnc=(2, 3, 5, 7, 11), pointwise=False, rtol=1e-9, atol=1e-8,
     ref=lambda i, o: {"vec": i["start_val"] + (1e3 * i["end_val"] - i["start_val"]) * np.arange(o["num_nodes"]) / (o["num_nodes"] - 1)})


def _dv_opts(r):
    v = []
    for j in range(int(r.integers(1, 4))):
        u = list(UT)[r.integers(len(UT))]
        n = int(r.choice([0, 1, 4]))
        v.append(["in%d" % j, "out%d" % j, float(r.uniform(-5, 5)) if n == 0 else r.uniform(-5, 5, n), u])
    return {"vars": v, "_given": [like(r, x[3]) for x in v]}


Spec("openconcept.utilities:DVLabel", "C11", lambda o: {v[0]: (o["_given"][j], (max(np.size(v[2]), 1),), U(-50, 50)) for j, v in enumerate(o["vars"])},
     lambda o: {v[1]: v[3] for v in o["vars"]}, opts=_dv_opts, nn=None, build=lambda o: pick("openconcept.utilities:DVLabel")(o["vars"]), pointwise=False, rtol=1e-12, atol=1e-12,
     ref=lambda i, o: {v[1]: i[v[0]] * UT[o["_given"][j]][0] / UT[v[3]][0] for j, v in enumerate(o["vars"])})
