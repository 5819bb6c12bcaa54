"""The properties (source of properties.jsonl and of MANIFEST.json; see gen.py)."""
PROPS = []


def p(id, title, statement, over, text, why, files, mech, technique="", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _technique=technique, _note=note))


EX = "exhaustive enumeration of a bounded input/history space on the real code against an independent reference model"

p("C01", "Multi-threaded minimum search: every interleaving is a sequential search",
  "Under every thread schedule the multi-threaded minimisation terminates without crash, deadlock or data race. Each prepared starting point is tried at most once, the search stops trying new starting points only when enough solutions are found or none is left, and the set of returned solutions is exactly the set of minima reached from the tried starting points (none lost, none duplicated, none torn). The returned minimum is the deepest of those solutions.",
  ["schedules"], "All interleavings of 2-3 worker threads up to a preemption bound, for early-stop and queue-exhaustion situations.",
  "The tests run one schedule chosen by the OS; races on the shared queue and solution list need a particular preemption.",
  ["src/minimizer/MinimizeGSL.cpp", "src/minimizer/Minimizer.cpp"],
  [("work queue guarded by a mutex, result list guarded by a second one", "MinimizeParams / GSL_Minimize_gen_all"), ("one thread per minimiser", "Minimize_gen_all")],
  "stateless model checking (controlled scheduler, DFS over all interleavings up to a preemption bound, vector-clock race detection) of the real multi-threaded code",
  "Exhaustive for the stated scenarios up to the preemption bound; sequentially consistent memory model plus happens-before race detection; scheduling points at synchronisation operations and at accesses to locations written by more than one thread.")

p("C02", "Minimiser combination returns the deepest candidate",
  "For every combination of enabled minimisers the global minimisation returns a configuration whose effective potential is not higher than that of the other enabled minimisers' results nor of the origin check, in the model's VEV dimension, with a VEV below the numerical zero threshold reported as zero. The choice of minimisers is the documented one for every combination of switches, and switches survive a round trip.",
  ["inputs", "configurations"], "All subsets of minimisers and all members of a family of multi-well potentials in 1-4 VEV dimensions.",
  "The tests minimise a handful of physical benchmark points with the default minimisers.",
  ["src/minimizer/Minimizer.cpp", "src/minimizer/MinimizeGSL.cpp", "src/minimizer/LibNLOPT/MinimizeNLOPT.cpp"],
  [("candidate selection", "Minimizer::Minimize_gen_all"), ("bit mask of minimisers", "Minimizer::CalcWhichMinimizer")], EX,
  "Exhaustive over the enumerated multi-well potentials and switch combinations; the wells' depths and positions are known analytically.")

p("D01", "Plane-restricted minimisation stays in its plane and finds its deepest point",
  "For every model with at least two VEVs, pair of points and weight, the minimisation restricted to the plane between two minima returns a point on that plane, and no lower value of the potential exists on the plane near the enumerated wells.",
  ["inputs", "configurations"], "All pairs of end points, weights and minimiser subsets of a lattice, for potentials with analytically known restricted minima.",
  "Unit tests never call the plane minimisation.",
  ["src/minimizer/MinimizePlane.cpp"], [("coordinate elimination", "TransformCoordinates / MinimizePlane")], EX,
  "Exhaustive over the enumerated planes; restricted minima known in closed form.")

p("M01", "A model object is a function of its last input, not of its history",
  "For every model and every sequence of operations (setting parameters of earlier points, evaluating potentials, masses, couplings, counterterms at any configuration or temperature, setting user counterterms), a model that is then initialised with a point gives bit-for-bit the same results as a freshly created model initialised with that point. Evaluations do not change later evaluations.",
  ["histories"], "All operation histories up to a depth over an alphabet of mutating and evaluating operations, for every registered model.",
  "Each test creates a fresh model and evaluates once.",
  ["src/models/ClassPotentialOrigin.cpp", "src/models/ClassPotentialC2HDM.cpp", "src/models/ClassPotentialR2HDM.cpp", "src/models/ClassPotentialN2HDM.cpp", "src/models/ClassPotentialCxSM.cpp", "src/models/ClassPotentialCPintheDark.cpp", "src/models/ClassPotentialSM.cpp"],
  [("resetbools / lazily computed flags", "Class_Potential_Origin")], EX, "Exhaustive over histories up to the depth bound; differential oracle (fresh object).")

p("M02", "Input files: a point is read from its line exactly",
  "For every model, separator layout and index-column setting, the parameters and model of the line that is read are exactly the numbers of that line in the documented column order, independent of the other lines of the file.",
  ["inputs", "configurations"], "All models, index-column settings, whitespace layouts and number formats of a small alphabet.",
  "Tests set parameters directly and never parse a data file.",
  ["src/models/ClassPotentialOrigin.cpp"], [("ReadAndSet", "all models"), ("index column", "UseIndexCol")], EX, "Exhaustive over the enumerated layouts.")

p("M03", "Renormalised potential: tree-level minimum, masses and mixing survive one loop",
  "For every model, Yukawa type and valid input point, the counterterms computed make the one-loop (T=0) effective potential stationary at the tree-level electroweak vacuum and leave the Higgs mass matrix there equal to the tree-level one, for every direction of the scalar field space fixed by the scheme (infrared Goldstone logarithms dropped).",
  ["inputs", "configurations"], "All models, Yukawa types and points of a parameter lattice; all first and second derivatives at the vacuum.",
  "The tests check tabulated numbers for one point per model and type.",
  ["src/models/ClassPotentialOrigin.cpp", "src/models/ClassPotentialC2HDM.cpp", "src/models/ClassPotentialN2HDM.cpp"],
  [("calc_CT", "each model"), ("WeinbergFirstDerivative / WeinbergSecondDerivative", "Class_Potential_Origin")], EX,
  "Exhaustive over the enumerated points; derivatives of an independently written Lagrangian-level potential.")

p("M04", "Tree-level spectrum reproduces the inputs",
  "For every model and valid input point the tree-level vacuum is stationary, the scalar spectrum there contains exactly three massless Goldstone bosons and the input Higgs masses, and the gauge boson and fermion masses are the Standard Model inputs (W, Z, massless photon and gluon-like states, quarks and leptons).",
  ["inputs", "configurations"], "All models, Yukawa types and points of a parameter lattice.",
  "Tests check one point per model.",
  ["src/models/ClassPotentialOrigin.cpp", "src/models/ClassPotentialC2HDM.cpp", "src/models/ClassPotentialR2HDM.cpp", "src/models/ClassPotentialN2HDM.cpp", "src/models/ClassPotentialCxSM.cpp", "src/models/ClassPotentialCPintheDark.cpp"],
  [("set_gen / set_CT / SetCurvatureArrays", "each model")], EX, "Exhaustive over the enumerated points; masses computed by an independent diagonalisation.")

p("M05", "Hand-simplified model expressions equal the general tensor expressions",
  "For every model, point and field configuration, the simplified tree-level and counterterm potentials and the simplified thermal mass corrections agree with the general tensor expressions.",
  ["inputs", "configurations"], "All models, lattice of parameter points and lattice of VEV configurations.",
  "Tests call the internal cross-check at one random configuration per point.",
  ["src/models/ClassPotentialOrigin.cpp"], [("VTreeSimplified / VCounterSimplified / CalculateDebyeSimplified", "each model")], EX, "Exhaustive over the enumerated configurations.")

p("M06", "The effective potential is the sum of its defining parts",
  "At every field configuration and temperature the effective potential equals tree-level plus counterterm plus Coleman-Weinberg plus thermal plus daisy contributions evaluated from the field-dependent masses with their multiplicities and signs. Its field and temperature derivatives are those of the value it returns, and configurations related by a symmetry of the model give the same value.",
  ["inputs", "configurations"], "All models, VEV lattice, temperatures and contributions.",
  "Tests check single values at a single point.",
  ["src/models/ClassPotentialOrigin.cpp"], [("VEff, VTree, CounterTerm, V1Loop", "Class_Potential_Origin")], EX, "Independent re-evaluation from masses and numerically integrated thermal functions; exhaustive on the lattice.")

p("M07", "Thermal functions equal their integrals everywhere",
  "The bosonic and fermionic thermal functions and their interpolated versions equal the defining integrals, are continuous across every internal matching point, and their derivatives equal the slopes of the values, for all arguments including negative squared masses.",
  ["inputs"], "All points of a dense lattice in m^2/T^2 refined around every matching point.",
  "Tests sample a few arguments.",
  ["src/ThermalFunctions/ThermalFunctions.cpp", "src/ThermalFunctions/NegativeBosonSpline.cpp", "src/ThermalFunctions/thermalcoefficientcalculator.cpp"],
  [("JbosonInterpolated / JfermionInterpolated", "ThermalFunctions.cpp")], EX, "Exhaustive on a dense lattice with an independent quadrature.")

p("M08", "One-loop Higgs couplings are derivatives of the potential",
  "The zero-temperature one-loop trilinear Higgs couplings (tree, counterterm, Coleman-Weinberg parts) are symmetric in their indices and equal the third derivatives of the corresponding potential at the vacuum, rotated into the mass basis, for every model and point; the derivatives of the Coleman-Weinberg potential in the field basis of orders one to four, which they are built from, are those of the potential too, for every degeneracy of masses.",
  ["inputs", "configurations"], "All models and points of a lattice, all index triples.",
  "Tests compare some couplings of one point with stored numbers.",
  ["src/models/ClassPotentialOrigin.cpp"], [("Prepare_Triple / TripleHiggsCouplings / WeinbergThirdDerivative", "Class_Potential_Origin and models")], EX, "Exhaustive over index triples; independent perturbation-theory derivatives (divided differences, 128-bit arithmetic) of a potential written from the Lagrangian as oracle.")

p("E01", "Critical temperature search brackets the last transition and reports its verdict",
  "For every temperature history of the global minimum the critical-temperature search returns success exactly when the vacuum at zero temperature is the electroweak one and the symmetric phase is reached below the upper temperature with v/T above the threshold; then T_c is the temperature at which the global minimum becomes symmetric, the reported minimum is the broken one just below it, and otherwise the status names the reason.",
  ["inputs", "histories"], "All scripted histories of the minimum over temperature (position of the transition, vacuum status, strength).",
  "Tests check T_c of one point per model.",
  ["src/minimizer/Minimizer.cpp"], [("bisection with vacuum checks", "Minimizer::PTFinder_gen_all")], EX, "Exhaustive over scripted histories with analytically known answer.")

p("E02", "Vacuum-stability and symmetry-restoration verdicts are correct",
  "For every shape of the potential at high temperature (the coefficients of its terms quadratic and linear in the fields, in units of T^2) the high-temperature verdict is the correct one: unbounded for a falling direction, flat for a flat one, otherwise restored or not restored according to the electroweak VEV at the stationary point, which is the high-temperature vacuum that is stored. The zero-temperature vacuum is accepted exactly when the global minimum coincides (within 1 GeV) with the tree-level vacuum up to the signs of its components.",
  ["inputs", "configurations"], "All sign patterns of quadratic and quartic high-temperature coefficients of a lattice and all placements of a competing vacuum.",
  "Tests check the numeric-to-status mapping only.",
  ["src/minimum_tracer/minimum_tracer.cpp"], [("IsThereEWSymmetryRestoration, GetStatusNLOVEV", "MinimumTracer")], EX, "Exhaustive over enumerated coefficient patterns.")

p("T01", "Phase tracing follows minima over their whole temperature range",
  "For every enumerated potential, a traced phase consists of true local minima of the effective potential at their temperatures, sorted in temperature without gaps, with the right potential values, and its end points are the temperatures at which the minimum appears or disappears (or the limits of the scan); phases joined by a second-order transition form one phase; no phase is listed twice. The electroweak vacuum of T=0 belongs to a traced phase even if it is only a local minimum. Phases are ordered by their upper end. If tracing reports success in the multi-step modes 0-3, the lowest traced phase is the global minimum at every temperature of the scan (in the default mode: at the upper end, the lower ends of the phases and a grid of temperatures); modes 2 and 3 always succeed, modes 0 and 1 report missing coverage only if there is some.",
  ["inputs", "configurations"], "All potentials of a family with analytically known minima, spinodals and ranges, all multi-step modes.",
  "Tests trace a handful of physical points and compare a few numbers.",
  ["src/minimum_tracer/minimum_tracer.cpp"], [("TrackPhase, Vacuum", "MinimumTracer")], EX, "Exhaustive over the enumerated potentials, closed-form oracle.")

p("T02", "Coexisting phase pairs and critical temperatures are exactly the physical ones",
  "Every pair of phases that coexist over a temperature interval is reported once, with the overlap as its range and the phase that reaches the higher temperatures as the false one (the deeper one at the upper end if both end there), and its critical temperature is where the two potentials cross with the proper order; pairs that do not cross report the reason. Gaps in the covered temperature range are noticed, and a phase keeps its minima sorted by temperature without duplicates.",
  ["inputs", "configurations"], "All arrangements of up to three phases' ranges and crossings on a small temperature lattice.",
  "Tests contain one or two pairs.",
  ["src/minimum_tracer/minimum_tracer.cpp"], [("setCoexPhases, CoexPhases::CalculateTc", "Vacuum")], EX, "Exhaustive over arrangements with analytic potentials.")

p("T03", "Discrete symmetries are exactly those of the potential; reduction respects them",
  "The discrete symmetries found for a model are exactly the sign-flip symmetries of its effective potential in the VEV directions, they form a group containing the identity, and reducing a configuration with them leads to one and the same representative for all equivalent configurations, never changes its potential or its distance to the origin, and never identifies inequivalent ones. Directions are treated as flat exactly if the potential is constant along them or invariant under their rotation. The global minimum and already traced phases are recognised up to these symmetries.",
  ["inputs", "configurations"], "All symmetry groups of a family of 1-4 dimensional potentials and all configurations of a lattice.",
  "Tests use fixed groups of physical models.",
  ["src/minimum_tracer/minimum_tracer.cpp", "include/BSMPT/minimum_tracer/minimum_tracer.h"], [("FindDiscreteSymmetries, ReduceVEV, FindFlatDirections, IsGlobMin, MinimumFoundAlready", "MinimumTracer")], EX, "Exhaustive over all subgroups of sign flips, block structures and lattice points.")

p("B01", "Bounce action equals the extremal Euclidean action",
  "For every potential barrier of the family (straight and mildly curved tunnelling paths, away from the thin-wall limit) the computed three- (or four-) dimensional action equals that of the true bounce solution, is invariant under field rotations, translations and exchange of the path parametrisation, scales as it must under rescaling of fields and potential, and is not reported as a success if no bounce exists.",
  ["inputs", "configurations"], "All barriers of a family from thin to thick wall, 1-3 field dimensions, orientations and starting paths.",
  "Tests compute six potentials with 5% tolerance.",
  ["src/bounce_solution/action_calculation.cpp"], [("shooting with path deformation", "BounceActionInt")], EX, "Independent one-dimensional shooting oracle; exhaustive over the family.")

p("B02", "Transition temperatures solve their defining equations",
  "For every action curve, wall velocity and number of effective degrees of freedom: the approximate nucleation temperature solves S3/T=140, the nucleation temperature solves Gamma/H^4=1, the percolation and completion temperatures are where the false-vacuum fraction is 0.71 and 0.01 (or the requested one), each at the highest temperature of that kind within the computed range. A status is a success exactly if such a temperature exists, no temperature is reported otherwise, T_compl <= T_perc always, and repeating or reordering the calculations changes nothing.",
  ["inputs", "histories"], "All action curves of a family, wall velocities, fractions, and all orders of the calculations.",
  "Tests check one or two points' temperatures.",
  ["src/bounce_solution/bounce_solution.cpp"], [("bisection on the spline of S3(T)", "CalculateNucleationTemp, CalcTempAtFalseVacFraction")], EX, "Exhaustive over the family; closed-form action and independent quadrature as oracle.")

p("B03", "Strength, inverse duration and wall velocity follow their definitions",
  "At the percolation temperature the transition strength equals the trace-anomaly difference over the radiation energy, beta/H is the logarithmic derivative of S3/T, and the wall velocity is the user's value or solves the selected approximation self-consistently, whatever the history of calls.",
  ["inputs", "histories"], "All phases/actions of a lattice, all wall-velocity settings, all call orders.",
  "Tests compare one point per setting.",
  ["src/bounce_solution/bounce_solution.cpp"], [("CalculatePTStrength, CalculateWallVelocity, CalculateInvTimeScale", "BounceSolution")], EX, "Exhaustive over the lattice with closed-form potentials.")

p("B04", "Tunnelling is computed between the closest symmetry images, over the right range",
  "The bounce is computed from the symmetry image of the true vacuum that is closest to the false one, every stored action belongs to a temperature inside the coexistence range with the true phase energetically favoured, the stored solutions are sorted by temperature without duplicates, and the action curve interpolates them.",
  ["inputs", "configurations"], "All symmetry groups and vacuum placements of a lattice; all potentials of a tunnelling family.",
  "Tests only use the identity or physical groups.",
  ["src/bounce_solution/bounce_solution.cpp"], [("CalculateOptimalDiscreteSymmetry, GWInitialScan, SetBounceSol", "BounceSolution")], EX, "Exhaustive over signed permutation groups and placements.")

p("G01", "Gravitational-wave signal is a pure function of the transition's parameters",
  "For every strength, inverse duration, wall velocity, number of degrees of freedom, transition temperature and turbulence setting, the kinetic energy fractions, mean bubble separation, peak frequencies and amplitudes, spectrum at every frequency, LISA sensitivity and signal-to-noise ratio equal the published formulas, for every order of calls on the object. The result is a failure exactly when beta/H<1 or the selected transition temperature is not available.",
  ["inputs", "histories"], "All points of a parameter lattice covering every regime, all frequencies of a lattice, all call histories up to a depth.",
  "Tests compare the SNR of a few points, in one call order.",
  ["src/gravitational_waves/gw.cpp", "include/BSMPT/gravitational_waves/gw.h"], [("GravitationalWave", "gw.cpp")], EX, "Exhaustive over the lattice and over call histories; the oracle re-derives every formula and integral.")

p("R01", "Transition report: statuses, values and columns are consistent for every outcome",
  "For every combination of outcomes of the stages (stability, symmetry restoration, tracing, coexisting pairs, critical temperature, bounce, nucleation, percolation, completion, gravitational waves) and every choice of the settings: each stage runs exactly when the earlier stages it depends on succeeded and otherwise is reported as 'not set' or 'nan'; a temperature with both vacua is reported exactly when its stage succeeded, and then lies in the coexistence range and belongs to the two phases; the user's wall velocity, false-vacuum fractions, transition-temperature choice and discrete symmetries are the ones used; strength, inverse time scale and wall velocity are those of the chosen transition temperature; there is one entry per coexisting pair in every column of the legend; and the reported history of phases is the sequence of successful transitions starting in the high-temperature phase. No outcome makes the calculation crash.",
  ["configurations", "histories"], "All potentials of a family covering each combination of stage outcomes, all transition-temperature choices and settings.",
  "Tests check a few physical points.",
  ["src/transition_tracer/transition_tracer.cpp", "src/bounce_solution/bounce_solution.cpp"], [("TransitionTracer", "transition_tracer.cpp")], EX, "Exhaustive over the family.")

p("P01", "Command-line and JSON options are understood identically and completely",
  "For every set of declared options and every sequence of arguments in any of the accepted notations, the parser returns exactly the supplied values, accepts the same settings from the command line and from JSON, reports missing required options and rejects unknown ones, and never crashes.",
  ["inputs", "programs"], "All argument sequences up to a length over an alphabet of notations, all declared option sets of a family.",
  "Tests use a few fixed argument lists.",
  ["src/utility/parser.cpp"], [("parser", "parser.cpp")], EX, "Exhaustive over argument sequences up to the bound against a map model.")

p("P02", "Programs: output lines match input lines and the legend",
  "Every program writes, for each selected input line and in order, the input line unchanged followed by exactly the columns announced in its header; selecting a range of lines yields the same output for a line as processing it alone, and options given on the command line or in JSON produce the same output.",
  ["inputs", "programs", "configurations"], "All programs, models and line ranges of a small file, both option notations.",
  "No test runs a program.",
  ["src/prog/BSMPT.cpp", "src/prog/CalcTemps.cpp", "src/prog/CalcGW.cpp", "src/prog/CalcCT.cpp", "src/prog/NLOVEV.cpp", "src/prog/VEVEVO.cpp", "src/prog/TripleHiggsNLO.cpp", "src/prog/MinimaTracer.cpp"],
  [("main loops", "src/prog")], EX, "Exhaustive over ranges and programs on a small file; differential oracle.")

p("U01", "Logging shows exactly the enabled levels, on the selected stream",
  "For every sequence of level switches, stream changes and messages, a message appears exactly once on the stream selected at that time if and only if its level is enabled and logging is not globally disabled.",
  ["histories"], "All operation sequences up to a depth over levels, streams and messages.",
  "Tests do not exercise switching.",
  ["src/utility/Logger.cpp"], [("Logger singleton", "Logger.cpp")], EX, "Exhaustive over operation histories against a set model.")

p("U02", "Tunnelling paths: the constant-velocity spline is a faithful unit-speed curve",
  "For every sequence of path points the path curve passes through all of them in order, starts and ends at the first and last point, is parametrised by its arc length, and editing the path keeps those guarantees.",
  ["inputs", "histories"], "All point sequences of a lattice in 1-3 dimensions and all editing histories up to a depth.",
  "Tests check one or two paths.",
  ["src/utility/const_velocity_spline.cpp"], [("cvspline", "const_velocity_spline.cpp")], EX, "Exhaustive over the lattice.")

p("U03", "Numerical building blocks equal their mathematical definitions",
  "Numerical derivatives, splines, special functions, grids, norms and comparisons return their mathematical values on their whole domain, for every dimension and size enumerated.",
  ["inputs"], "All members of polynomial families (exactness), lattices of arguments.",
  "Tests sample a few values.",
  ["src/utility/utility.cpp", "src/utility/NumericalDerivatives.cpp", "src/utility/spline/spline.cpp", "src/minimum_tracer/minimum_tracer.cpp"],
  [("helpers", "utility")], EX, "Exhaustive over families with closed-form answers.")

p("M09", "VEV ordering is consistent between minimiser, model and output",
  "For every model, converting a minimiser configuration to the full field configuration and back is the identity, names in the output legend refer to the column they describe, and symmetric-limit operations zero exactly the electroweak components.",
  ["inputs", "configurations"], "All models including user models with any arrangement of VEV and non-VEV fields up to a size.",
  "Tests use one physical vector per model.",
  ["src/models/ClassPotentialOrigin.cpp"], [("MinimizeOrderVEV, SetEWVEVZero, EWSBVEV", "Class_Potential_Origin")], EX, "Exhaustive over arrangements.")

p("V01", "Model self-tests accept exactly the consistent models",
  "Every self test of a model implementation (parameter, field and VEV labels; CKM unitarity; gauge-boson, lepton and quark masses; tree-level minimum and tadpole relations; NLO masses; simplified tree-level and counterterm potentials; counterterm conditions; relations between tensor coefficients; numbers of fields and parameters; symmetry of the tensors under all permutations of their indices) passes exactly if the claim it tests holds for the model, up to the documented threshold; for every shipped model and point all of them pass; and the printed table and the summary count agree with the individual verdicts.",
  ["inputs", "configurations"], "All tensors of a small size with every subset of an index orbit changed, and every shipped model with every single and paired inconsistency of a family.",
  "The existing tests only check that correct models pass; a self test that accepts an inconsistent model, which a model author relies on, goes unnoticed.",
  ["src/models/ModelTestfunctions.cpp", "src/models/ClassPotentialOrigin.cpp"], [("ModelTests, CheckImplementation", "BSMPT::ModelTests, Class_Potential_Origin")], EX, "Exhaustive over the defects of a family on all shipped models.")
