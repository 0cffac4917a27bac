"""C16."""
import numpy as np
import openmdao.api as om
from scipy.interpolate import make_interp_spline
from ..core import HarnessSkip, rng_for
from ..specs.prop import _R_J, _R_CP, _R, prop_eta, prop_static
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["the tabulated propeller maps are copied as reference data and interpolated independently (cubic splines); power coefficients stay inside the tabulated range"]


def scaled(cp, J, design_J, design_cp):
    """The three-bladed map stretched to another design point."""
    gj, gc = np.linspace(0.2, 2.8 * design_J / 2.2, 14), _R_CP[:6] * design_cp / 0.2
    rows = make_interp_spline(gj, _R[:6], k=3, axis=1)
    return np.array([float(make_interp_spline(gc, rows(j), k=3)(c)) for c, j in zip(cp, J)])


def maps_case(rep, seed, n):
    """The library's propeller maps themselves, also those no shipped propeller selects by default."""
    try:
        from openconcept.propulsion.empirical_data import prop_maps as pm
    except ImportError as ex:
        raise HarnessSkip(str(ex))
    rng = rng_for("C16", "maps", seed)
    for _ in range(n):
        nn = int(rng.choice([1, 2, 5]))
        dJ, dc = float(rng.uniform(1.5, 3.0)), float(rng.uniform(0.1, 0.5))
        for name, kw, ct, jt in (("propeller_map_Raymer", {}, .8, 2.8), ("propeller_map_highpower", {}, 2.5, 4.0),
                                 ("propeller_map_scaled", dict(design_J=dJ, design_cp=dc), 2.5 * dc, 2.8 * dJ / 2.2), ("propeller_map_scaled", {}, .5, 2.8),
                                 ("propeller_map_constant_prop_efficiency", {}, 2, 3), ("static_propeller_map_Raymer", {}, .6, None), ("static_propeller_map_highpower", {}, 1., None)):
            f = getattr(pm, name, None)
            if f is None:
                rep.skip("no " + name)
                continue
            p = om.Problem(reports=False)
            p.model.add_subsystem("m", f(vec_size=nn, **kw) if nn > 1 or rng.random() < .5 else f(**kw), promotes=["*"])
            p.setup(check=False)
            cp = rng.uniform(0, ct, nn)
            p.set_val("cp", cp)
            if jt is not None:
                J = rng.uniform(0.2, jt, nn)
                p.set_val("J", J)
            p.run_model()
            if jt is None:
                rep.close(name, p.get_val("ct_over_cp"), prop_static(cp, 3 if "Raymer" in name else 4), rtol=1e-9, cp=cp)
            else:
                want = prop_eta(cp, J, 3 if "Raymer" in name else 4) if kw == {} and "scaled" not in name else scaled(cp, J, kw.get("design_J", 2.2), kw.get("design_cp", .2))
                if "constant" in name:
                    want = np.full(nn, .85)
                rep.close(name, p.get_val("eta_prop"), want, rtol=1e-9, atol=1e-12, cp=cp, J=J, **kw)
            rep.event("map:" + name)
            rep.evaluated((name, repr(kw), cp.tobytes()))


def cases(tier, seed):
    return [dict(fn="maps_case", args=dict(seed=seed, n=30 if tier == "quick" else 600))] + by_prop("C16", tier, seed, 1200, 6000)
