from . import atmos, aero, prop, thermal, propthermal, weights, meshes, mission, calculus, plumbing  # noqa: F401
