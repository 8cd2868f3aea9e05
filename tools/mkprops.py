"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

TREE="lumos/models/tree_utils.py"; COMP="lumos/models/composition.py"; BASE="lumos/models/base.py"
OCP="lumos/optimal_control/scaled_mesh_ocp.py"; FIX="lumos/optimal_control/fixed_mesh_ocp.py"
NLP="lumos/optimal_control/nlp.py"; UT="lumos/optimal_control/utils.py"; CONV="lumos/optimal_control/convolution.py"
TR="lumos/optimal_control/transcription.py"; COL="lumos/optimal_control/collocation.py"; CFG="lumos/optimal_control/config.py"
MS="lumos/optimal_control/model_solver.py"; NPU="lumos/numpy/utils.py"; NPI="lumos/numpy/__init__.py"
LTS="lumos/simulations/laptime_simulation.py"; VEH="lumos/models/vehicles/simple_vehicle.py"
PAC="lumos/models/tires/pacejka.py"; PER="lumos/models/tires/perantoni.py"; TIR="lumos/models/tires/utils.py"

prop("C01","Parameter trees convert between all their forms without loss",
 "Turning a parameter or configuration tree into a nested dictionary, a flat dictionary, a flat numeric vector or a JAX pytree and back gives a tree with the same structure, key order, values and array shapes, including scalars, one-element, empty and two-dimensional arrays. The flat vector lists each array row by row in flat-dictionary order, also when it is unpacked symbolically for CasADi. None of the converted forms shares mutable data with the tree it came from or with another conversion.",
 ["inputs"],"every tree shape (depth, branching, leaf-less nodes), every parameter shape up to 2-D and every value",
 "Tests convert two hand-written trees with 1-D data; nested empty nodes, one-element arrays and rectangular matrices are unreached.",
 [TREE],[("to/from dict with deep copies",TREE+": Tree.to_dict, Tree.from_dict"),("flat dictionary and tree definition",TREE+": to_flat_dict, from_flat_dict"),("ravel/unravel for NumPy and CasADi",TREE+": _ravel_flat_dict")])
prop("C02","Edits by path touch exactly the addressed entry of a tree",
 "After any sequence of reading, setting and replacing entries of a tree by path, with any delimiter, the tree equals a plain nested dictionary on which the same edits were made. A path that names a missing node is rejected with an error and leaves the tree unchanged.",
 ["histories","inputs"],"every sequence of get/set/replace operations on every tree, including failing ones",
 "Tests make one or two edits on one tree with the default delimiter.",
 [TREE],[("path resolution",TREE+": Tree._get_subtree, _set_leaf, replace_subtree"),("parameter access",TREE+": ParameterTree.get_param, set_param")])
prop("C03","Model parameters are isolated from what callers hold",
 "Reading a model's parameters returns what was last set, recursively for every submodel, and later edits of a tree that was read from or passed to a model never change that model or another one. Evaluating a model never changes its parameters, and two models built from the same type or configuration share none of them.",
 ["histories"],"every interleaving of reads, writes, evaluations and edits of held trees over several models",
 "Tests check single set/get calls; aliasing shows only over histories with several holders.",
 [COMP,BASE,TREE],[("copy on set and get",COMP+": CompositeModel.set_recursive_params, get_recursive_params")])
prop("C04","Composite models are built exactly as their configuration says",
 "For every registered family of models and every configuration tree, the built model has at each path the configured type, and its parameters, outputs and residual names are its own plus those of its submodels prefixed by their path, in order. Wrong, unknown or duplicate types are rejected with an error and leave the registry as it was, and an evaluation that leaves out a submodel or calls one twice is rejected too.",
 ["programs","configurations","histories"],"every tree of model types, every replacement of a subtree and every registry history",
 "Tests use one fixed two-level family.",
 [COMP,BASE],[("registry",COMP+": ModelMaker"),("recursive construction",COMP+": CompositeModel._build_submodels"),("names",BASE+": _construct_io_names, _collect_children_outputs")])
prop("C05","A model computes the same numbers in every backend and call style",
 "Any model written against the switchable array namespace, including composite models with array-valued parameters, returns the same state derivatives, outputs, constraint outputs and residuals for the same states, inputs, mesh and parameters whether it is evaluated with NumPy, JAX or CasADi, with dictionaries or arrays, one stage at a time or batched. The built-in aero, drone, kinematic, tire and vehicle models satisfy this over their whole working range.",
 ["programs","inputs"],"every model program over the supported operations, every parameter tree and every batch of stages",
 "Tests compare backends on one test model with scalar parameters at one point.",
 [BASE,TREE,"lumos/models/ml.py","lumos/models/aero/aero.py",NPU],[("batched forward per backend",BASE+": make_model_algebra_cons"),("array calling convention",BASE+": forward_with_arrays"),("parameter unpacking",TREE+": tree_ravel")])
prop("C06","Stage equations and their derivatives equal the explicit model",
 "For any model and backend, the stage equations used by the optimiser equal computed minus given state derivative, computed minus given constraint output, then residuals, in that order. Their sparse first derivative and the sparse second derivative of their multiplier-weighted sum, placed at the reported positions, equal the true dense derivatives, with no nonzero left out.",
 ["programs","inputs"],"every model program, point, multiplier and parameter value",
 "Tests check one analytic model; sparsity patterns and batching depend on the model and on the numbers of states, inputs and outputs.",
 [BASE,NLP,NPU],[("implicit form",BASE+": StateSpaceModel.implicit"),("JAX structure extraction",NLP+": JaxMappedConstraints"),("CasADi sparse map",NPU+": cmap"),("pessimistic structures",BASE+": _model_algebra_jacobianstructure, _model_algebra_hessianstructure")])
prop("C07","Compiling a model leaves it and the session unchanged",
 "Building stage equations or exporting a model, for any backend, any number of times and also when it fails, leaves its parameters as plain numbers with their previous values, leaves the selected array backend as it was, and leaves direct evaluation unchanged. Compiled functions use the parameters passed to the call, never those present when they were built.",
 ["histories","programs"],"every order of compiling for different backends, changing parameters, evaluating and exporting",
 "Tests check one compile per process.",
 [BASE],[("parameter restore after tracing",BASE+": make_model_algebra_cons, export_c_code")])
prop("C08","Exported C code computes the model",
 "The C function written by the model export, compiled with a plain C compiler, returns the same state derivatives, outputs, constraint outputs and residuals as the model for every state, input, mesh and parameter vector in flat order, also when the file held something else before.",
 ["programs","inputs"],"every model program and numeric input",
 "The export test only looks at one model and needs MATLAB to execute the code.",
 [BASE,TREE],[("code export",BASE+": export_c_code")])
prop("C09","Array backend selection is scoped and last-set",
 "After any sequence of selecting backends and entering, leaving, nesting, reusing or failing inside scoped selections, the active backend is the innermost scope's, and leaving a scope restores what was active when it was entered. An unknown backend name changes nothing, and array calls always go to the active backend.",
 ["histories"],"every sequence of set, enter, exit, decorate, raise",
 "Tests enter one scope once.",
 [NPI,NPU],[("backend switch",NPI+": set_backend, __getattr__"),("scoped selection",NPU+": use_backend")])
prop("C10","Mapped evaluation equals evaluating stage by stage",
 "Mapping a function over a batch, with any mix of mapped and shared arguments, any batch sizes in any order and one or several outputs, gives for each row exactly what the function gives for that row, in order, for the list map, the CasADi map (dense, and sparse as stored nonzeros) and the JAX map. Vector join, split and tile give the same values in every backend.",
 ["inputs","histories","programs"],"every function shape, batch size history and argument mapping",
 "Tests use one function and one batch size.",
 [NPU],[("list map",NPU+": lmap"),("CasADi map with cached batch",NPU+": cmap"),("vector helpers",NPU+": vector_concat, vector_split, vector_tile")])
prop("C11","The CasADi array functions agree with NumPy",
 "Every function the CasADi array namespace defines, evaluated on numeric or symbolic scalars, vectors (one-column arrays) and matrices, gives the value NumPy gives for the same call on the same numbers, for every axis, shift, order, count and mixture with plain arrays it supports; calls it does not support raise an error instead of returning different numbers. Its own functions (degree trigonometry, cosine spacing, finite-difference weights, rotation matrices) satisfy their defining formulas.",
 ["inputs"],"every function, supported argument shape and value",
 "Tests check each function on one or two constants, often only that it runs.",
 ["lumos/numpy/casadi_numpy/array.py","lumos/numpy/casadi_numpy/arithmetic.py","lumos/numpy/casadi_numpy/linalg_top_level.py","lumos/numpy/casadi_numpy/linalg.py","lumos/numpy/casadi_numpy/logicals.py","lumos/numpy/casadi_numpy/spacing.py","lumos/numpy/casadi_numpy/calculus.py","lumos/numpy/casadi_numpy/interpolate.py","lumos/numpy/casadi_numpy/conditionals.py","lumos/numpy/casadi_numpy/trig.py","lumos/numpy/casadi_numpy/rotations.py","lumos/numpy/casadi_numpy/finite_difference_operators.py"],
 [("array creation and shaping","lumos/numpy/casadi_numpy/array.py"),("reductions","lumos/numpy/casadi_numpy/arithmetic.py"),("linear algebra","lumos/numpy/casadi_numpy/linalg_top_level.py")])
prop("C12","The decision vector layout is one consistent bijection",
 "For any numbers of intervals, stages, states, inputs, constraint outputs and global variables, packing per-stage arrays and globals into the decision vector and unpacking it are inverse to each other. Every index query (by variable, by group, at one stage counted from either end, or over all stages) addresses exactly the entry that unpacking assigns to that variable, and out-of-range stages are rejected.",
 ["configurations","inputs"],"every layout and every variable/stage query",
 "Tests use one layout.",
 [UT],[("packing",UT+": DecVarOperator.flatten_var, unflatten_var"),("indices",UT+": get_var_index_in_dec, get_group_indices_at_stage, get_group_indcies_in_dec"),("interval view",UT+": get_interval_tensor")])
prop("C13","Windowing and block-offset helpers equal their naive definitions",
 "Cutting an array into overlapping windows returns, in order, the slices starting at each multiple of the stride, and rejects lengths that do not divide evenly. Repeating a block of sparse indices or an index array with an increment gives block k shifted by k times the offset, in block order.",
 ["inputs"],"every length, width, stride, trailing shape, block and offset",
 "Tests use a few constants.",
 [UT],[("windowing",UT+": batch_conv1d"),("offset structure",UT+": create_offset_structure, stack_and_increment")])
prop("C14","Collocation points and matrices are exact for polynomials",
 "For every scheme and supported order the collocation points are distinct, increasing, inside [-1, 1] with the end points the scheme prescribes, and are the quadrature nodes of maximal polynomial exactness. The differentiation and integration matrices built on any distinct support differentiate, and integrate from the first support point, every polynomial of degree below the number of support points exactly.",
 ["inputs","configurations"],"every scheme, order, support, evaluation set and polynomial",
 "Tests check tabulated points and one polynomial.",
 [COL],[("points",COL+": get_collocation_points"),("matrices",COL+": build_lagrange_differential_matrix, build_lagrange_integration_matrix")])
prop("C15","Transcription schemes vanish on exact solutions and only there",
 "For every scheme the continuity residual of states and state derivatives sampled from any polynomial within the scheme's order is zero at every point of an interval of any length, and the residual is linear in the states and bilinear in derivatives and length. Given the first state and the derivatives, a zero residual determines all other states uniquely, and the differential and integral collocation forms determine the same ones whenever both represent the derivatives exactly (degree below the number of collocation points).",
 ["inputs","configurations"],"every scheme, number of stages, interval length and trajectory",
 "Tests check one trajectory per scheme.",
 [TR],[("continuity residual",TR+": Transcription.continuity_con"),("matrices",TR+": get_continuity_matrices"),("selection by name",TR+": make_transcription")])
prop("C16","The mesh is valid and matches the requested intervals",
 "For any accepted interval points and scheme, the mesh starts at 0, ends at the mesh scale, strictly increases, has one point per stage, contains every scaled interval boundary, and places inner points by the scheme's collocation points. Point lists of wrong length, wrong ends or not strictly increasing are rejected, and the default is uniform.",
 ["configurations","inputs","histories"],"every interval division, scheme, scale and order of mesh and scale updates",
 "Tests check uniform meshes and one custom one.",
 [OCP,FIX],[("mesh construction",OCP+": set_normalized_mesh, get_mesh_from_scale"),("fixed mesh scale",FIX+": set_mesh_scale, get_mesh")])
prop("C17","A problem's constraints equal an independent transcription of it",
 "For any model, scheme, mesh, parameters and decision vector, the problem's constraint vector equals one computed directly from the definition: model equations at each stage at that stage's mesh coordinate, the transcription residual over each interval with its own length, and the cyclic differences. Constraint count, bounds and order agree with it, with fixed and with free mesh scale.",
 ["programs","configurations","inputs"],"every model, scheme, mesh, formulation and point",
 "Tests use uniform meshes and two models and seldom compare against an independent value.",
 [OCP,FIX,CONV],[("stage equations",CONV+": ConvConstraints"),("continuity",OCP+": _continuity_constraints"),("cyclic",OCP+": _cyclic_constraint")])
prop("C18","Reported derivatives of an optimal control problem are exact",
 "For any optimal control problem, scaled or not, fixed or free mesh, lifted or condensed, cyclic or not, the reported gradient, sparse Jacobian and sparse upper-triangular Lagrangian Hessian, summed at the reported positions, equal the true derivatives of its objective and constraints with respect to every decision variable, the mesh scale included. The reported structure does not change with the point and misses no nonzero.",
 ["programs","configurations","inputs"],"every problem configuration, point, multiplier vector and objective factor (models whose equations do not depend on the mesh coordinate when the mesh scale is free, as documented)",
 "Tests compare derivatives for a handful of configurations at one point.",
 [OCP,FIX,NLP,CONV],[("continuity derivatives",OCP+": _continuity_jacobian, _continuity_hessian"),("condensed derivatives",OCP+": _condensed_jacobian, _condensed_hessian"),("assembly",NLP+": CompositeProblem")])
prop("C19","A composed problem equals the sum of its current parts",
 "After any history of adding, removing, replacing and rescaling constraints and objectives, a composed problem's objective is the sum and its constraint vector the concatenation of its current parts, and gradient, sparse Jacobian, upper-triangular Hessian, their structures and the per-part split of multipliers agree with that, whatever was queried before. Adding a part under a name in use, or a constraint of the wrong size, is rejected and changes nothing.",
 ["histories","programs"],"every history of edits and queries over arbitrary parts with dense, sparse, duplicated or empty structures",
 "Tests compose two parts once and never edit after a query.",
 [NLP],[("composition",NLP+": CompositeProblem"),("part scaling",NLP+": BaseConstraints, BaseObjective"),("cached triangle",NLP+": CompositeProblem.hessian")],
 state=[("upper-triangle selection","which stored Hessian entries are reported",NLP+": _idx_triu")])
prop("C20","The condensed problem is the lifted problem with derivatives eliminated",
 "At any point whose state derivatives satisfy the model, the condensed problem's continuity and remaining stage constraints equal those of the lifted problem, and they do not depend on the condensed-out state-derivative variables, which are fixed to zero. Its Jacobian and Hessian equal the true derivatives after elimination.",
 ["programs","configurations","inputs"],"every model, scheme, mesh, scaling and point, fixed and free mesh scale",
 "Tests compare one model on one mesh, and the free-mesh variant is not exercised at this commit.",
 [OCP],[("condensed constraints",OCP+": _condensed_constraints"),("chain rule",OCP+": _make_chainrule_condensed_jacobian, _condensed_hessian")])
prop("C21","Scaling only changes units",
 "For any variable scales set any number of times, the problem evaluated at the scaled point gives the unscaled objective, and the unscaled constraints divided by the scale of the state or constraint output they belong to (residuals and cyclic conditions unscaled), with derivatives following by the chain rule. Bounds stay in unscaled units, and setting new scales replaces the old ones entirely.",
 ["configurations","histories","inputs"],"every scale assignment history over every variable group, lifted and condensed",
 "Tests apply one set of scales once.",
 [OCP,NLP],[("scales",OCP+": set_scales"),("scaled evaluation",NLP+": BaseConstraints, BaseObjective")])
prop("C22","Bounds and boundary conditions follow a last-write model",
 "After any history of bound updates and boundary conditions, each variable's bounds at each stage are those last set for it, except that every registered boundary condition keeps holding at its stage, the latest registered one winning. Unknown variables, out-of-range stages, wrong-length or inverted bounds are rejected without changing other variables.",
 ["histories","inputs"],"every sequence of bound configurations (scalar or per stage) and boundary conditions, including invalid ones",
 "Tests set one or two bounds.",
 [OCP,CFG],[("bounds",OCP+": update_bounds, _set_var_bounds"),("boundary conditions",OCP+": update_boundary_conditions")])
prop("C23","Cyclic problems tie exactly the requested variables",
 "In a cyclic problem the first and last stage values of every state and input that is not declared non-cyclic, and of nothing else, are constrained equal, each by one constraint. Declaring an unknown variable non-cyclic is rejected, and building or using a problem never changes the configuration it was given.",
 ["configurations","histories"],"every choice of non-cyclic variables, model and repeated reuse of one configuration",
 "Tests build two cyclic problems once each.",
 [OCP,LTS],[("cyclic variables",OCP+": _build_cyclic_vars, _build_cyclic_cons")])
prop("C24","Configurations validate and round-trip",
 "Any valid simulation configuration converted to a dictionary and back is equal field by field, including bounds, scales, boundary conditions, logging and transcription options, and builds the same problem; fields that are not given have their documented defaults. Bounds that are inverted, of unequal length, of wrong dimension or mixed kind, and unknown transcriptions or backends, are rejected.",
 ["configurations","inputs"],"every configuration, valid or not",
 "Tests convert a few examples.",
 [CFG,TR],[("validation",CFG+": BoundConfig.__post_init__"),("reconstruction",CFG+": SimConfig.__post_init__, to_dict")])
prop("C25","Changing parameters of a built problem equals rebuilding it",
 "After any history of parameter changes through the problem, every value and derivative it reports equals that of a problem newly built from a model with those parameters, in every backend, lifted or condensed, and reading the parameters back gives them. The mesh scale of a fixed mesh problem and the division of the mesh behave the same way.",
 ["histories","programs","configurations"],"every sequence of parameter or mesh-scale changes and evaluations",
 "Tests change one scalar once.",
 [OCP,CONV,BASE],[("parameter update",OCP+": modify_model_param"),("parameters of the stage equations",CONV+": ConvConstraints.set_params")])
prop("C26","Solve logs record exactly the iterations that happened",
 "With logging on, each logged iteration's file, the final result, the combined iterations and the metrics history hold, for exactly the iterations selected by the interval plus the last one, the unscaled variables, model outputs, constraint values and mesh coordinates of the point evaluated at that iteration, for the current solve only, combined in order of iteration and mesh. The largest violation reported for an iteration is the largest constraint magnitude at that iteration and where it occurs. Problems keep logs of their own, also when they are created at the same moment.",
 ["histories","configurations"],"every sequence of iterations (restoration repeats included), logging interval, formulation and repeated solves",
 "Tests check the presence of files after one solve.",
 [OCP],[("iteration callback",OCP+": intermediate"),("log files",OCP+": _create_result_df, _log_final_iter")])
prop("C27","A reported solution is a solution, whatever the formulation",
 "When a solve reports success, the returned point satisfies all bounds and constraints and the first-order optimality conditions of the unscaled problem to tolerance. For convex problems the optimum does not depend on scaling, on lifted or condensed form, on the backend, or on the initial guess. Each solve uses exactly the options, guess and multipliers it is given, whatever was solved before, its outcome is passed on, and an error inside the solver or a refused option is raised.",
 ["inputs","configurations"],"every generated linear-quadratic optimal control problem with a known optimum, formulation, starting point and history of solves",
 "Solver tests fail at this commit with the installed solver, and check one example each.",
 [NLP,OCP],[("solve",NLP+": NLPFunction.solve"),("bounds and scaling",NLP+": _construct_ipopt_problem")])
prop("C28","The model solver finds states where the model's residuals vanish",
 "For any solvable model and any division of its variables into fixed and free ones, the returned solution keeps the fixed values, respects the bounds and makes the requested equations hold, with output values matching a direct evaluation at that solution. Its derivatives match the true ones, and a failure is reported as one.",
 ["inputs","configurations"],"every model, assignment of fixed variables, scaling and initial guess",
 "Tests solve one vehicle equilibrium.",
 [MS],[("steady state problem",MS)])
prop("C29","Track geometry is self-consistent in both descriptions",
 "Converting a track between Cartesian and curvature form preserves its start point, start heading and shape up to discretisation, heading is the integral of curvature, and shifting, rotating or mirroring the track transforms distance, curvature and heading accordingly. Distance starts at zero and increases to the total distance, and lookups reproduce the data at its points, interpolate between them and hold end values outside.",
 ["inputs"],"every smooth track description and query",
 "Tests use a circle and one file.",
 ["lumos/models/tracks.py"],[("conversion","lumos/models/tracks.py: cartesian_to_curvilinear, curvilinear_to_cartesian"),("lookups","lumos/models/tracks.py: RaceTrack")])
prop("C30","Track-relative kinematics agree with motion in the plane",
 "The distance-domain derivatives of time, lateral offset and heading error reproduce the vehicle's planar velocity and yaw rate on any curved centreline, and mirroring left and right negates offset and heading rates and keeps time rate. For a full vehicle on track, every vehicle state derivative per distance is its derivative per time multiplied by time per distance.",
 ["inputs"],"every pose, velocity, yaw rate and curvature, moving along or against the track",
 "Tests check a straight and a few constants.",
 ["lumos/models/kinematics.py","lumos/models/simple_vehicle_on_track.py"],[("kinematics","lumos/models/kinematics.py: TrackPosition2D.forward"),("distance domain","lumos/models/simple_vehicle_on_track.py: forward")])
prop("C31","The vehicle model obeys mechanics and symmetry",
 "For every state, input and parameter set, the wheel loads sum to weight plus downforce, body accelerations equal the net forces and moment over mass and inertia in the rotating frame, wheel accelerations follow from torques, and drive and brake power or torque splits conserve the total. Each tire model, shipped or the user's own, is evaluated with the load, slips and longitudinal velocity of its own wheel. Mirroring left and right in states and inputs mirrors all outputs and derivatives.",
 ["inputs"],"every state, input and parameter set in the working range",
 "Tests check one operating point and a few signs.",
 [VEH],[("vehicle dynamics",VEH+": SimpleVehicle")])
prop("C32","The MF5.2 tire is the published model in every evaluation mode",
 "For every slip, camber, load, speed and parameter set, longitudinal and lateral force and the moments are those of the published MF5.2 equations; the optimised mode returns the same forces, and its reduced set of moments. User friction and stiffness scalings scale peak force and slope, forces stay bounded by load times peak friction, initial slopes equal the slip stiffnesses, a mirrored parameter set gives mirrored forces, and forces are continuous in slip, camber and load.",
 ["inputs"],"every slip, camber, load, speed and parameter set in range",
 "Tests compare tabulated points.",
 [PAC],[("tire formulas",PAC+": MF52")])
prop("C33","The Perantoni tire stays inside its friction ellipse and is odd in slip",
 "For every load, slip ratio, slip angle and parameter set the tire force is that of the published formula: each component is odd in its own slip and even in the other, the combined force never exceeds the friction ellipse of peak coefficients interpolated in load, and pure slip reaches the peak where the formula has its peak.",
 ["inputs"],"every slip, load and parameter set in range",
 "Tests check shapes at a few points.",
 [PER],[("tire formulas",PER)])
prop("C34","Tire property files are read completely and exactly",
 "Reading a tire property file returns every numeric parameter with exactly its written value and ignores comments, section headers, units and blank lines wherever they occur; building a tire from it uses those values and keeps defaults for others.",
 ["inputs"],"every well-formed file: order, spacing, number formats, comments and sections",
 "Tests read one file.",
 [TIR,PAC],[("reader",TIR+": read_tir_file")])
prop("C35","A lap-time problem always reflects its current track and settings",
 "After any history of track changes, failed track changes, parameter, bound, boundary-condition and mesh changes (a mesh change being followed by setting the track), the problem's mesh length, track curvature and heading inputs, lateral-offset bounds, initial guess, constraints and derivatives are those of a problem newly built for the current track and settings, at every stage's distance. Its objective is lap time plus the mean squared steering penalty, with exact gradient and Hessian.",
 ["histories","configurations","inputs"],"every sequence of tracks and settings",
 "Tests set one track once.",
 [LTS],[("track update",LTS+": LaptimeSimulation.set_track"),("objective",LTS+": inputs penalty")])
prop("C36","Aerodynamic and learned models implement their formulas",
 "The constant, Gaussian-process and neural-network aero models return, in every backend, the coefficients of the textbook formula for the parameters currently set, and the drone model returns rigid-body motion; results do not depend on earlier evaluations and changing returned values changes nothing in the model.",
 ["inputs","histories"],"every parameter size and value and every evaluation history",
 "Tests only check that the models run.",
 ["lumos/models/ml.py","lumos/models/aero/aero.py","lumos/models/drone_model.py"],[("kernels and layers","lumos/models/ml.py"),("aero models","lumos/models/aero/aero.py")])
prop("C37","Minimum-time simulations pose the stated problem and reach the known optimum",
 "The drone simulation, in every configuration and after any history of changes, minimises manoeuvre time subject to the drone's dynamics, bounds and boundary conditions at every stage, starting from a guess consistent with the dynamics. Minimum-time problems with a known answer (vertical rest-to-rest flight, descent along the brachistochrone), solved in every formulation, scale set and backend, return the analytic time and path within discretisation accuracy.",
 ["inputs","configurations","histories"],"every configuration, data and history",
 "Tests solve one configuration of each example.",
 ["lumos/simulations/drone_simulation.py","lumos/optimal_control/scaled_mesh_ocp.py","lumos/models/drone_model.py"],[("drone problem","lumos/simulations/drone_simulation.py: DroneSimulation"),("free-time problems","lumos/optimal_control/scaled_mesh_ocp.py: ScaledMeshOCP")])

prop("C38","Compiled models are their own, whatever happened while they were compiled",
 "Whenever building a casadi model in a directory reports success, its equations, derivatives and forward evaluation are those of that model, whatever happened to earlier or simultaneous builds there: a compiler that is missing, fails or is killed half way, a process that is killed while compiling, or other processes building the same or other models before, during or after. An undisturbed build succeeds without cleaning up by hand, models built before keep computing what they did, and a failed build leaves the parameters of its model as they were.",
 ["crash points","schedules","histories"],"every crash point and interleaving of compilations in one directory",
 "Tests compile one model at a time in a clean directory with a working compiler.",
 [BASE],[("code generation, compilation and loading",BASE+": _make_casadi_model_algebra_cons")])

prop("C39","The values of a model are addressed by their names",
 "For every model, with or without states and sub-models, and every group of its variables, a value given under a name stands where the order of the group puts that name, in whatever order the values are given: in vectors and dictionaries made from named values (in every array backend), in positions within a group and within the flat stage vector, in values read from a vector by name, and in evaluations with dictionaries and with vectors, which agree. The order of constraint outputs is the one last set on that model, and no other model is affected. Missing values, unknown names and names of other groups are rejected, additional values are ignored, and a class whose constraint outputs or residuals are not among its outputs is refused.",
 ["programs","inputs","histories"],"every model, group, order of names and value",
 "Tests use one model, in the order of its own names.",
 [BASE],[("vectors by name",BASE+": Model.make_vector"),("positions",BASE+": Model.get_var_index_in_flat"),("evaluation with vectors",BASE+": StateSpaceModel.forward_with_arrays")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
