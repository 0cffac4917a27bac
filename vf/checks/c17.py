"""C17."""
import openmdao.api as om
from ..core import HarnessSkip
from .common import by_prop, spec_case  # noqa: F401
RULE = "distinct (class, options, input values) tuples on which every output was compared with the independent reference"
ASSUMPTIONS = ["implicit systems are judged only where Newton converged"]


def every_system(rep):
    """Every assembled system the library exports can at least be set up and run with its defaults."""
    from openconcept.propulsion import systems
    for name in sorted(vars(systems)):
        cls = getattr(systems, name)
        if not (isinstance(cls, type) and issubclass(cls, om.Group)):
            continue
        for nn in (1, 3):
            p = om.Problem(reports=False)
            p.model.add_subsystem("s", cls(num_nodes=nn), promotes=["*"])
            try:
                p.setup(check=False)
                p.final_setup()
            except Exception as ex:
                rep.violate(name + ":cannot_be_set_up", exception=type(ex).__name__, message=str(ex)[:300])
                continue
            rep.require(name + ":delivers thrust", any(k.endswith("thrust") for k in p.model.list_outputs(out_stream=None, return_format="dict", prom_name=True)))
            rep.evaluated((name, nn))
        rep.event("systems_set_up")
    if not rep.events["systems_set_up"]:
        raise HarnessSkip("no assembled systems exported")


def cases(tier, seed):
    return [dict(fn="every_system")] + by_prop("C17", tier, seed, 120, 1500)
