#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

OC = "openconcept/"
prop("C01", "Every component's analytic derivatives are the derivatives of what it computes",
 "For every component the library ships, the partial derivatives it hands to the optimizer equal the true sensitivities of the outputs it computes, including entries it declares as structurally zero or constant. This holds at every differentiable point of the component's documented input domain, for every combination of options and every vector length.",
 ["inputs", "configurations"], "all differentiable input points in the documented domain x all option combinations x all vector lengths, for every shipped explicit and implicit component",
 "Existing tests call check_partials at one or two default points and seldom with non-default options, so wrong partials on another branch, another option or another vector length go unseen; many components have no derivative test at all.",
 ["openconcept/utilities/math", "openconcept/mission/phases.py", "openconcept/atmospherics", "openconcept/aerodynamics", "openconcept/propulsion", "openconcept/thermal", "openconcept/weights", "openconcept/energy_storage", "openconcept/geometry", "openconcept/stability", "openconcept/costs"],
 [("compute_partials / declare_partials of each component", "every component class"), ("sparsity rows/cols given to declare_partials", "setup() of each component")],
 observe=["totals of a one-component model versus differences of its outputs"])
prop("C02", "Total derivatives through assembled models match finite differences",
 "Gradients computed through a converged mission phase, propulsion system, thermal loop, drag or weight build-up equal the change in the re-converged outputs per change in the aircraft inputs. Connections between components never drop, duplicate or misplace a sensitivity.",
 ["inputs", "configurations"], "all converged models built from the shipped groups x all differentiable design points x all input/output pairs",
 "Group-level gradients are checked in a handful of tests at one point; errors from wiring (scalar/vector broadcasting, src_indices, promoted names) only appear in particular assemblies and vector lengths.",
 ["openconcept/mission", "openconcept/propulsion/systems", "openconcept/thermal", "openconcept/weights", "openconcept/aerodynamics"],
 [("group setup(): connections, promotions, solver assignment", "every Group subclass"), ("linear solvers on coupled groups", "mission/phases.py, thermal/*.py")],
 observe=["compute_totals versus re-converged central differences"])
prop("C03", "Integrated states are the time integral of their rates",
 "Integrating a rate over the node grid starts at the given initial value, is linear in the rate and start value, and is exact for every rate that is polynomial of the scheme's order on its stencil, for whichever way the time grid is specified (step, duration, or bounds), unit of the independent variable, number of nodes, number of simultaneous states and single or multi-segment layout. The reported final value always equals the last node, and final-only and zero-start options change only what their names say.",
 ["inputs", "configurations"], "all rates, start values, durations (including negative and zero), node counts, schemes, time-setup modes, segment layouts and unit choices",
 "Tests sample a few node counts and analytic functions; the guarantee ranges over every stencil size, segment layout, option and unit combination.",
 ["openconcept/utilities/math/integrals.py", "openconcept/utilities/math/simpson_integration.py", "openconcept/utilities/math/bdf3_integration.py"],
 [("Simpson and BDF3 stencils", "simpson_integration.py, bdf3_integration.py"), ("Integrator / OldIntegrator compute", "integrals.py")],
 observe=["state, state_initial, state_final outputs"])
prop("C04", "Numerical differentiation is exact on its polynomial class",
 "Differentiating a profile sampled at the nodes returns the exact derivative for every polynomial of the scheme's order, is linear in the data, inverse to the step length and treats segments independently. Node times never depend on data values.",
 ["inputs", "configurations"], "all sampled profiles, step lengths, node counts, orders (2 and 4) and segment lists",
 "Tests check a few polynomials at fixed step and node counts.",
 ["openconcept/utilities/math/derivatives.py"],
 [("first derivative stencils per order and edge", "derivatives.py"), ("multi-segment assembly", "derivatives.py")])
prop("C05", "Consecutive mission phases join without a gap or a jump",
 "When phases are linked, every integrated state of the later phase starts exactly at the value the earlier phase ended with, no matter how deep the integrator is nested, how it is promoted, or how many states and integrators there are. States not meant to be linked, and those listed to be skipped, are left alone, and the single phase duration drives every integrator inside that phase.",
 ["configurations", "inputs"], "all trees of phases, groups and integrators; all promotion patterns, skip lists, state counts, durations and rates",
 "Tests contain about ten fixed topologies; the auto-linking must hold for every nesting and naming.",
 ["openconcept/mission/mission_groups.py"],
 [("collection of integrated states and automatic connection", "PhaseGroup.configure, IntegratorGroup.setup, TrajectoryGroup.link_phases")],
 observe=["state_initial/state_final values along the mission"])
prop("C06", "A converged mission closes in range, altitude, speed and time",
 "The shipped example missions converge, and in every converged mission the climb, cruise and descent segments together cover exactly the requested range between the requested altitudes, each phase's altitude, range and elapsed time are the integrals of its vertical speed, ground speed and duration, and speeds obey the atmosphere and the commanded airspeed. Reserve, loiter and takeoff segments meet their own requested distance, altitude and duration.",
 ["inputs", "configurations"], "all feasible aircraft, payload/range/altitude/speed schedules and node counts, for each shipped mission profile",
 "Example tests compare block fuel of one mission per aircraft; a phase boundary that silently loses range or altitude can leave that number nearly unchanged.",
 ["openconcept/mission/profiles.py", "openconcept/mission/phases.py"],
 [("range/altitude closure balances and phase linking", "profiles.py"), ("kinematic components and integrators", "phases.py")],
 observe=["phase histories of converged missions"])
prop("C07", "A converged mission conserves mass and energy and balances forces",
 "At every node of every steady phase of a converged mission lift carries the weight component, thrust minus drag minus the climb component equals mass times the (near-zero) acceleration, and throttle is whatever achieves that. Along the whole mission the weight lost equals the fuel burned, fuel used is the integral of fuel flow, and the battery state of charge falls by the electrical energy drawn over capacity.",
 ["inputs", "configurations"], "all feasible missions of all shipped example aircraft architectures (turboprop, twin, series hybrid, electric, turbofan)",
 "Tests compare a few end values at one design point and never audit the balance at each node.",
 ["openconcept/mission/phases.py", "openconcept/mission/profiles.py", "openconcept/propulsion/systems", "openconcept/energy_storage/battery.py", "openconcept/examples"],
 [("steady-flight force balance", "SteadyFlightPhase"), ("fuel/SOC integrators", "aircraft models and SOCBattery")],
 observe=["per-node audit of converged missions"])
prop("C08", "Takeoff distance segments obey their kinematics and the balanced-field condition",
 "In a converged full takeoff analysis the ground roll segments connect the speeds they claim with distance equal to the integral of ground speed over time, the decision speed makes accelerate-go and accelerate-stop distances equal (or hits its documented bound), and every acceleration is the net force over mass with ground friction and lift relief included. Failed-engine segments use the failed-engine thrust. The climb-out rises from the runway to the obstacle height that was asked for, and the climb gradient is that of the engines running at the stated multiple of the stall speed.",
 ["inputs", "configurations"], "all feasible aircraft and takeoff conditions, both transition models, and all node counts",
 "Example tests compare one takeoff field length; component tests cover single points.",
 ["openconcept/mission/phases.py", "openconcept/mission/profiles.py"],
 [("ground roll, rotation, transition and climb-angle components", "phases.py"), ("decision-speed implicit solve", "BFLImplicitSolve")])
prop("C09", "Element-wise algebra components compute exactly the declared expression",
 "A sum/difference or product/quotient component outputs, element by element, exactly the declared scaled combination of its inputs, with scalars broadcast over vectors and all values converted between the declared units. Any number of equations on one component are independent of each other and of the order of declaration.",
 ["inputs", "configurations"], "all numbers of inputs, vector sizes, lengths, scaling factors, divide masks, units and equations, and all values",
 "Tests sample a few shapes and factor lists, never random combinations of sizes, masks, units and multiple equations.",
 ["openconcept/utilities/math/add_subtract_comp.py", "openconcept/utilities/math/multiply_divide_comp.py"],
 [("equation bookkeeping and broadcasting", "add_equation / setup / compute")])
prop("C10", "Joining, splitting, flipping and extremum components preserve every element",
 "Concatenating vectors yields all input elements in declared order, splitting returns each declared slice, and splitting undoes joining for any sizes, lengths and units. Maximum, minimum and sign-flip components return exactly the extremum or negation of the given vector.",
 ["inputs", "configurations"], "all relation lists, segment sizes, row lengths, units and values",
 "Tests sample a few sizes.",
 ["openconcept/utilities/math/combine_split_comp.py", "openconcept/utilities/math/max_min_comp.py", "openconcept/mission/phases.py"],
 [("offset arithmetic", "VectorConcatenateComp / VectorSplitComp compute"), ("argmax/argmin", "MaxComp / MinComp"), ("FlipVectorComp", "phases.py")])
prop("C11", "Selection, interpolation, renaming and dictionary inputs deliver the right value",
 "Selecting by index returns at every element exactly the chosen input, linear interpolation runs straight from start to end value over the nodes, renaming passes values through unchanged with their units, and dictionary-based inputs expose each requested entry with its stored value and units, leaving the user's dictionary untouched. Out-of-range selections and missing entries are reported, never silently replaced.",
 ["inputs", "configurations"], "all input lists, selector vectors, units, nested dictionary structures and vector lengths",
 "Tests cover a few fixed lists.",
 ["openconcept/utilities/selector.py", "openconcept/utilities/linearinterp.py", "openconcept/utilities/dvlabel.py", "openconcept/utilities/dict_indepvarcomp.py"],
 [("masking by selector", "SelectorComp"), ("interpolation matrix", "LinearInterpolator"), ("renaming", "DVLabel"), ("dictionary walk", "DictIndepVarComp")])
prop("C12", "Atmosphere and airspeed relations hold at every altitude",
 "Temperature, pressure, density, sound speed, Mach number, dynamic pressure and the true/equivalent airspeed relation satisfy the 1976 standard atmosphere with the stated temperature offset, the ideal gas law, and each other's definitions at every altitude from sea level to 20 km. All of them are continuous, with continuous slope, across the tropopause.",
 ["inputs", "configurations"], "all altitudes 0-20 km, airspeeds, temperature offsets and node counts",
 "Tests compare a few tabulated altitudes; continuity and the mutual relations at every altitude including the blended tropopause region are not asserted.",
 ["openconcept/atmospherics"],
 [("layer equations and tropopause blending", "temperature_comp.py, pressure_comp.py"), ("derived quantities", "other atmospherics components, compute_atmos_props.py")])
prop("C13", "Lift, drag, stall and maximum-lift relations hold at every flight condition",
 "Lift and drag equal dynamic pressure times reference area times the lift coefficient and the parabolic polar, steady-flight lift coefficient carries the weight component, stall speed is the speed at which maximum lift equals weight, and clean and flapped maximum lift coefficients follow the documented sweep and flap corrections. The relations are mutually consistent at every flight condition.",
 ["inputs", "configurations"], "all flight conditions, wing parameters, flap settings and node counts",
 "Tests check single points.",
 ["openconcept/aerodynamics/aerodynamics.py", "openconcept/aerodynamics/CL_max_estimation.py"],
 [("polar, lift, stall", "aerodynamics.py"), ("CLmax estimates", "CL_max_estimation.py")])
prop("C14", "Parasite drag build-up is the sum of documented component contributions",
 "The zero-lift drag coefficient of a transport or blended-wing-body equals the documented sum of skin friction times form factor times interference factor times wetted-area ratio over its components, plus the documented corrections, for every configuration and option. Skin friction blends laminar and turbulent laws by the laminar fraction, and every contribution is non-negative and responds only to its own component's geometry.",
 ["inputs", "configurations"], "all geometries, flight conditions, option values and takeoff/clean configurations",
 "Tests compare one configuration per aircraft type to a stored number.",
 ["openconcept/aerodynamics/drag_jet_transport.py", "openconcept/aerodynamics/drag_BWB.py"],
 [("component build-up and area scaling", "ParasiteDragCoefficient_JetTransport, ParasiteDragCoefficient_BWB"), ("form factor, flap and skin friction components", "drag_jet_transport.py")])
prop("C15", "Motors, generators and turboshafts conserve power",
 "For every throttle and rating, shaft power plus heat equals electrical power for motors and generators with the stated efficiency, fuel flow equals shaft power times specific consumption for turboshafts, and component sizing margin, weight and cost follow the documented linear laws. Efficiency losses are never created or lost between ports.",
 ["inputs", "configurations"], "all throttles (including zero and above one), ratings, efficiencies, weight/cost coefficients and node counts",
 "Tests check default coefficients at a few throttles.",
 ["openconcept/propulsion/motor.py", "openconcept/propulsion/generator.py", "openconcept/propulsion/turboshaft.py"],
 [("power relations", "SimpleMotor, SimpleGenerator, SimpleTurboshaft compute")])
prop("C16", "Propeller thrust follows power, speed and the propeller map in every regime",
 "Power and advance coefficients are the standard nondimensional forms, thrust follows the cruise efficiency map at high advance ratio, the static thrust map at low advance ratio, and a continuous blend between, for every supported blade count. Efficiency never manufactures thrust power in the cruise regime and the weight estimate follows its documented law for each blade count.",
 ["inputs", "configurations"], "all shaft powers, flight speeds down to zero, densities, diameters, rotational speeds, blade counts 3 and 4, and node counts",
 "Tests use four blades and a few points; the three-bladed propeller and the regime seams are not exercised.",
 ["openconcept/propulsion/propeller.py", "openconcept/propulsion/empirical_data/prop_maps.py"],
 [("coefficient and thrust components", "propeller.py"), ("map construction", "prop_maps.py")])
prop("C17", "Power splits and assembled propulsion systems balance at every node",
 "A power split delivers outputs plus losses equal to its input at every node under both the fractional and the fixed rule, never delivering more than is available. In every assembled turboprop, twin, series-hybrid or electric system the thrust is the sum over live propellers, fuel flow the sum over engines, electrical supply equals electrical demand, and a failed engine contributes nothing.",
 ["inputs", "configurations"], "all throttles, ratings, hybridization fractions, split rules, engine-failure flags and node counts for all shipped propulsion systems",
 "Tests check splitter points and end-to-end missions only.",
 ["openconcept/propulsion/splitter.py", "openconcept/propulsion/systems"],
 [("split rules", "splitter.py"), ("system wiring and summation", "propulsion/systems/*.py")])
prop("C18", "Battery charge and margins account for every joule",
 "Battery state of charge starts at the given value and falls by the drawn electrical energy divided by weight times specific energy, heat is the inefficient share of the load, and sizing margin is load over the power the pack can deliver. This holds for every load history, duration, pack option and node count.",
 ["inputs", "configurations"], "all load histories, durations, weights, specific energy/power, efficiency and node counts",
 "Tests check constant loads with default options.",
 ["openconcept/energy_storage/battery.py"],
 [("SOC rate and integrator", "SOCBattery"), ("heat, margin, capacity", "SimpleBattery")])
prop("C19", "Heat exchanger streams exchange equal heat with physical effectiveness",
 "The heat lost by the hot stream equals the heat gained by the cold stream and equals effectiveness times the maximum transferable heat, effectiveness follows the cross-flow relation of transfer units and capacity ratio and lies between zero and one, and outlet temperatures never cross beyond the inlet temperatures. Fin geometry, conductance (including fouling on each side), pressure drop and weight follow their documented offset-strip-fin relations.",
 ["inputs", "configurations"], "all fin geometries, mass flows, inlet temperatures, fluids, fouling options and node counts",
 "Tests check one geometry with default options.",
 ["openconcept/thermal/heat_exchanger.py"],
 [("geometry, j/f data, film coefficients, UA, NTU, outlet temperatures, pressure drop", "heat_exchanger.py")])
prop("C20", "Duct stations obey compressible-flow conservation laws",
 "At every station of a converged duct static and total conditions satisfy the isentropic and ideal-gas relations, the same mass flow passes every station, stagnation enthalpy changes only by the heat added, stagnation pressure only by the stated losses, and net force is the momentum balance. The explicit incompressible duct obeys its documented flow relation.",
 ["inputs", "configurations"], "all flight conditions, areas, heat and pressure losses and node counts for which a solution exists",
 "Tests check one converged point.",
 ["openconcept/thermal/ducts.py"],
 [("isentropic relations, heat addition, mass flow, nozzle exit matching, net force", "ducts.py")])
prop("C21", "Liquid-cooled components and coolant loops conserve heat",
 "In every cooled component the coolant carries off exactly the heat the wall gives it, a component's temperature changes at net heat over heat capacity, and a quasi-steady component is in balance. Cold-plate, motor-jacket, battery-cooling and reservoir temperatures follow their documented transfer-unit relations and never violate the ordering of temperatures.",
 ["inputs", "configurations"], "all heat loads, flows, temperatures, geometry, quasi-steady or transient option and node counts",
 "Tests check single points or compare a time history once.",
 ["openconcept/thermal/thermal.py", "openconcept/thermal/motor_cooling.py", "openconcept/thermal/battery_cooling.py"],
 [("cold plate, thermal mass, reservoir", "thermal.py"), ("motor jacket", "motor_cooling.py"), ("bandolier battery cooling", "battery_cooling.py")])
prop("C22", "Chillers, heat pipes, hoses, pumps and manifolds balance heat, work and flow",
 "A chiller rejects the heat it absorbs plus the work it uses, with the documented performance limit and bypass mixing, a heat pipe's end-temperature difference is heat times its documented thermal resistance built from its own wall, wick and vapor properties, pumps supply exactly hydraulic power over efficiency, hoses follow the documented friction and wall-sizing laws, and splits and merges conserve mass and enthalpy.",
 ["inputs", "configurations"], "all heat loads, temperatures, flows, geometries, material options, bypass settings and node counts",
 "Tests check a few default-option points; material options of the heat pipe are never varied.",
 ["openconcept/thermal/chiller.py", "openconcept/thermal/heat_pipe.py", "openconcept/thermal/hose.py", "openconcept/thermal/pump.py", "openconcept/thermal/manifold.py"],
 [("heat pump, selectors, COP", "chiller.py"), ("resistances, capacity, weight", "heat_pipe.py"), ("pressure drop and power", "hose.py, pump.py"), ("flow split/combine", "manifold.py")])
prop("C23", "Empty weight and operating cost are the documented build-ups of their parts",
 "For every aircraft type the empty weight equals the documented factors times the sum of its component weights with nothing dropped or counted twice, each component weight follows its documented regression, and operating cost equals the documented sum of fuel, maintenance, airframe and propulsion shares. Fudge factors and engine counts scale exactly what they name.",
 ["inputs", "configurations"], "all aircraft parameters within the regressions' positive domain, all option values and engine counts",
 "Tests compare one aircraft per type to a stored number with default options.",
 ["openconcept/weights", "openconcept/costs"],
 [("component regressions and total summation", "weights_*.py"), ("cost components", "costs_commuter.py")])
prop("C24", "Planform geometry and tail sizing match exact geometry",
 "Span, aspect ratio, area, mean aerodynamic chord and its position, and sweep computed from wing definitions equal the exact geometric integrals over the planform for every set of sections and section range, the trapezoidal and section-based forms agree on trapezoids, and tail areas satisfy their volume coefficients.",
 ["inputs", "configurations"], "all planforms (any number of sections, any start/end section, any sweep) and tail parameters",
 "Tests check a few planforms.",
 ["openconcept/geometry", "openconcept/stability"],
 [("trapezoid sums", "wing_planform.py"), ("volume coefficient relations", "tail_volume_coefficient_sizing.py")])
prop("C25", "Hydrogen tank mass, fill level and structure follow geometry and fuel use",
 "Liquid hydrogen mass is the initial fill of the geometric volume minus everything withdrawn, fill level is mass over full mass, and tank weight is the documented factor times walls and insulation sized by pressure, buckling and surface area for capsule, cylinder-free and near-spherical shapes alike. Total weight is always tank plus remaining fuel.",
 ["inputs", "configurations"], "all tank shapes, pressures, gaps, layer counts, withdrawal histories, material options and node counts",
 "Tests check one tank.",
 ["openconcept/energy_storage/hydrogen"],
 [("mass bookkeeping", "LH2_tank_no_boil_off.py"), ("wall and insulation sizing", "structural.py")])
prop("C26", "Engine decks scale and reproduce their source data consistently",
 "Each turbofan deck reproduces its tabulated engine cycle data at the tabulated points, a rubberized engine's thrust and fuel flow are its parent deck's scaled by the ratio of the requested to the parent's rated sea-level thrust while surge margin or turbine temperature stay the parent's, and hydrogen operation scales fuel flow by the ratio of heating values. Fuel flow and thrust scale identically so that specific consumption is independent of rating.",
 ["inputs", "configurations"], "all throttle/altitude/Mach points within the tabulated envelope, hybrid powers, ratings, deck choices, fuel choice and node counts",
 "Tests compare a few points per deck.",
 ["openconcept/propulsion/cfm56.py", "openconcept/propulsion/N3.py", "openconcept/propulsion/rubberized_turbofan.py", "openconcept/propulsion/empirical_data"],
 [("surrogate construction from data", "cfm56.py, N3.py"), ("scaling", "rubberized_turbofan.py")])
prop("C27", "Wing meshes reproduce the requested planform exactly",
 "A generated wing mesh has exactly the requested area, span, taper, sweep and section positions, starts at the left tip, ends on the symmetry plane, and is monotone in both directions without gaps for every panel count. Spanwise interpolated quantities follow the same spacing as the mesh they belong to and pass through the section values.",
 ["inputs", "configurations"], "all planform parameters, panel counts (scalar or per region), section counts, scaling and spacing options",
 "Tests check a few meshes.",
 ["openconcept/aerodynamics/openaerostruct/mesh_gen.py"],
 [("mesh morphing and cosine spacing", "mesh_gen.py")])
prop("C28", "Panel-method drag models agree with the direct analysis they stand for",
 "At training points the surrogate drag models return the direct vortex-lattice (or aerostructural) analysis of the current wing, never stale data of a previous wing or failed run, and the solved angle of attack produces the requested lift. Nonwing drag adds exactly, wave drag follows its documented critical-Mach relation on the selected wing region, and maximum lift is reached exactly when the critical section reaches its limit.",
 ["inputs", "histories", "fault_sequences"], "all wings, flight conditions, sequences of wing changes between evaluations (including failed training runs), options and node counts",
 "Tests check one wing and one change; caching keeps hidden shared state between evaluations, which only particular histories expose.",
 ["openconcept/aerodynamics/openaerostruct"],
 [("training data cache", "VLMDataGen, OASDataGen"), ("surrogate and lift balance", "VLMDragPolar, AerostructDragPolar"), ("wave drag and section limit", "wave_drag.py, CL_max_critical_section.py")],
 state=[("class-level training cache", "last wing geometry and its training data, shared by all instances", "drag_polar.py, aerostructural.py")])
prop("C29", "Every analysis point is independent of the others and of the vector length",
 "A component or system evaluated on many analysis points at once gives at each point exactly what it gives for that point alone, for any number, order and duplication of points. Only components that integrate or differentiate over the points may couple them.",
 ["inputs", "configurations"], "all point-wise components and systems, all vector lengths (including one), permutations and values",
 "Tests use one or two fixed vector lengths with constant values along the vector, which cannot reveal coupling, broadcasting or indexing errors between points.",
 ["openconcept/atmospherics", "openconcept/aerodynamics", "openconcept/propulsion", "openconcept/thermal", "openconcept/mission/phases.py", "openconcept/energy_storage"],
 [("num_nodes option and vectorized compute", "every vectorized component")])
prop("C30", "Results depend only on current inputs, not on history or repetition",
 "Evaluating a model again, after visiting other points, after computing derivatives, after a repeated setup, or alongside other instances gives identical results, and no analysis modifies the inputs, option values or data structures the user handed in. No evaluation order between outputs and derivatives changes either.",
 ["histories", "inputs", "configurations"], "all sequences of evaluations, derivative requests, repeated setups and instance creations over all shipped components and systems",
 "Tests build a fresh model, run once and stop; cached masks, popped options and class-level state only show with particular histories.",
 ["openconcept/utilities", "openconcept/atmospherics", "openconcept/aerodynamics", "openconcept/propulsion", "openconcept/thermal", "openconcept/mission"],
 [("state cached on components between calls", "setup()/compute()/compute_partials()"), ("stored keyword dictionaries", "utilities/math/*.py")],
 state=[("cached masks, meshes, keyword dictionaries", "values remembered between calls", "various components")])
prop("C31", "Trajectory and wing plots show exactly the recorded data",
 "Trajectory plots draw, for every phase, exactly the recorded history of the requested quantities in the requested units, one panel per quantity with the right labels, for any number of quantities and phases. Planform and force-contour plots place every panel at its true location and normalize forces by true panel area.",
 ["inputs", "configurations"], "all variable lists, units, phase lists, label options and meshes",
 "There is no test of the plotting helpers.",
 ["openconcept/utilities/visualization.py"],
 [("grid layout, unit conversion, force normalization", "visualization.py")])
prop("C32", "What cannot be modelled is refused, what is documented is accepted",
 "A request the library cannot honour ends in an exception at set-up or at the first evaluation, never in silently computed numbers: lists whose lengths do not match, an even number of Simpson nodes, unknown integration methods, time set-ups, control rules, engines, transition methods or blade counts, unsupported stencils, missing dictionary entries, phases that are not phases, rates without a state name, selectors, split fractions, Reynolds numbers, film coefficients, mass flows and pressure ratios outside their range at any node. Every documented choice, including the ends of the stated ranges, is accepted.",
 ["inputs", "configurations"], "all requests to the public components and groups, each legal or violating one stated condition at any position",
 "The tests refuse a handful of requests with one bad element each; a check that looks at the first element only, or a bound off by one, passes them.",
 ["openconcept/utilities", "openconcept/mission", "openconcept/propulsion", "openconcept/thermal", "openconcept/aerodynamics/openaerostruct"],
 [("guards in constructors, setup and compute", "utilities/math/*.py, utilities/selector.py, mission/*.py, propulsion/*.py, thermal/*.py, openaerostruct/*.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
