#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

TL = "src/transmissionline/"; ST = "src/sagtension/"; SG = "src/sagging/"; TR = "src/thermalrating/"; BS = "src/base/"

prop("C01", "Computed results never lag behind the inputs",
     "Objects that compute results on demand and remember them (catenaries and their solvers, cable locators, elongation models, loaders, saggers, thermal and solar solvers, polynomials, transmission lines) always answer a query as a newly built object with the same current inputs would. After any sequence of public modifications and queries, no result computed from a replaced input is ever returned. Objects passed in by pointer count as replaced when the pointer is set again.",
     ["histories", "inputs"], "every sequence of public setters, modifiers, copies and queries on one object, with every argument value",
     "Tests read each result once or twice after one setter order; staleness needs a particular modify-after-query sequence for one of about 150 setter/result pairs, few of which any test performs.",
     [TL+"catenary.cc", TL+"catenary_solver.cc", TL+"cable_attachment_equilibrium_solver.cc", TL+"cable_position_locator.cc", TL+"transmission_line.cc",
      ST+"cable_component_elongation_model.cc", ST+"cable_elongation_model.cc", ST+"line_cable_loader_base.cc", ST+"line_cable_reloader.cc", ST+"line_cable_unloader.cc", ST+"catenary_cable_reloader.cc", ST+"line_cable_sagger.cc",
      SG+"transit_sagger.cc", SG+"stopwatch_sagger.cc", SG+"cable_sag_position_corrector.cc",
      TR+"solar_radiation_solver.cc", TR+"steady_cable_current_solver.cc", TR+"steady_cable_temperature_solver.cc", TR+"transient_cable_temperature_solver.cc", BS+"polynomial.cc"],
     [("setters clear the is_updated flags", "every set_* member"), ("getters run Update() when IsUpdated() is false", "every result member"), ("Update() re-runs dependent steps in order", "Update/Update* members")],
     [("is_updated_*", "which remembered results match the inputs", "mutable members of each class")], ["public getters"])

prop("C02", "A failed computation is never presented as a result",
     "When the inputs of an on-demand computation do not lead to a solution, the query answers with its documented error value. It answers the same on every repeated query until an input changes: a failed attempt is never remembered as an up-to-date result.",
     ["inputs", "histories"], "every input on which any step of a computation fails, and every number of repeated queries afterwards",
     "Tests exercise solvable inputs; the failing exits of multi-step updates are never followed by a second query.",
     [TL+"catenary_solver.cc", TL+"cable_position_locator.cc", TL+"cable_attachment_equilibrium_solver.cc", ST+"line_cable_loader_base.cc", ST+"line_cable_reloader.cc", ST+"line_cable_unloader.cc", ST+"cable_elongation_model.cc", ST+"cable_component_elongation_model.cc", SG+"transit_sagger.cc", SG+"cable_sag_position_corrector.cc", TR+"steady_cable_temperature_solver.cc", TR+"transient_cable_temperature_solver.cc"],
     [("update flags are set only after every step succeeded", "Update() members")], [("is_updated_*", "result is valid", "mutable members")], ["public getters"])

prop("C03", "Validation never crashes on an incomplete object",
     "Asking any object to validate itself is always safe: with any subset of its referenced objects unset (including a newly constructed object, and objects whose own references are unset), with or without a message list, validation returns a verdict and never dereferences a null reference.",
     ["configurations", "inputs"], "every subset of unset references, at every nesting depth, and both ways of calling validation",
     "Tests validate fully configured objects; the subsets of missing references are exponential and a crash aborts the whole test binary.",
     ["src/transmissionline", "src/sagtension", "src/sagging", "src/thermalrating", "src/base"],
     [("null checks before member use and 'returns if errors are present' before updating", "every Validate member")], [], ["Validate"])

prop("C04", "Validation verdict and messages agree",
     "Validation returns false exactly when it reports at least one problem to the message list, for every object and every state of it. A problem found by validating a contained or referenced object is never lost, and the verdict does not depend on whether a message list was supplied.",
     ["inputs", "configurations"], "every object state, with and without warnings, with and without a message list",
     "Tests check the verdict of one good object and the message count of one bad one; dropped or unreported checks concern one condition out of about 200.",
     ["src/transmissionline", "src/sagtension", "src/sagging", "src/thermalrating", "src/base"],
     [("is_valid and messages->push_back set together", "every Validate member"), ("nested Validate results folded into is_valid", "every Validate member with sub-objects")], [], ["Validate"])

prop("C05", "Queries and validation do not change the object",
     "Reading results from, validating or copying an object never changes its inputs: whatever is temporarily reconfigured to probe the object is put back before returning, on every path, so that later queries answer as if the earlier query had not happened.",
     ["histories", "inputs"], "every read-only public operation from every state, on every path through it",
     "Tests never compare an object's answers with and without an interposed validation; the failing paths of the probing code are not reached.",
     [ST+"cable_elongation_model.cc", ST+"line_cable_loader_base.cc", ST+"line_cable_reloader.cc", ST+"line_cable_unloader.cc", TR+"steady_cable_current_solver.cc", TR+"steady_cable_temperature_solver.cc", TR+"transient_cable_temperature_solver.cc"],
     [("mutable members are restored after probing", "ValidateComponentsStrainUnloaded and Update steps")], [("mutable input members", "inputs that read-only members are able to touch", "mutable members")], ["public const members"])

prop("C06", "Copies are independent and no reference outlives its target",
     "Copying, assigning and destroying any object never frees memory twice, leaks it, or leaves a copy that refers to storage owned by the original. No object keeps a reference to storage that ceases to exist when the operation that stored it returns.",
     ["programs", "histories"], "every order of construction, copy, assignment, use and destruction of every class",
     "Tests mostly use one long-lived object; double frees and dangling references need a copy of a used object followed by destruction.",
     [BS+"polynomial.cc", ST+"cable_elongation_model.cc", ST+"cable_component_elongation_model.cc", ST+"line_cable_loader_base.cc", TL+"transmission_line.cc"],
     [("owned raw pointers come with destructor, copy constructor and assignment", "include/models/base/polynomial.h"), ("internal references are rebound after copying", "CableElongationModel, LineCableLoaderBase, TransmissionLine copy operations")], [], ["copy construction, assignment, destruction"])

prop("C07", "New objects have fully defined state",
     "Every constructor leaves every numeric, enumerated, flag and reference member with a defined value, so that no public operation on a newly constructed object depends on indeterminate memory.",
     ["programs", "inputs"], "every constructor of every class, every path through it, every member",
     "Indeterminate members usually happen to hold zero in a test process, so tests pass either way.",
     ["src", "include/models"], [("member assignments in constructors", "every constructor")], [], ["constructors"])

prop("C08", "Every computation terminates",
     "No public operation can run forever: every loop in the library advances on every round towards a bound that is fixed while the loop runs (a container's end, a counter limit, an iteration limit or a duration), whatever the inputs, including values that defeat convergence.",
     ["inputs"], "every input value, including those for which the numerical iteration never converges",
     "A test can only sample convergent inputs; non-termination appears at pathological values.",
     ["src/base", "src/transmissionline", "src/sagtension", "src/sagging", "src/thermalrating"],
     [("iteration counters with a maximum in every solver loop", "CatenarySolver, PulleyState, reloaders, thermal solvers, Polynomial::X"), ("iterator loops over unmodified containers", "throughout")], [], ["all public operations"])

prop("C09", "Running out of iterations is reported as failure",
     "Whenever a numerical search stops because its iteration limit is reached instead of its tolerance being met, the operation reports failure (its error value or a false status) and does not return the last iterate as a result.",
     ["inputs"], "every input for which a search does not converge within its limit",
     "Tests only contain convergent searches, so the limit exits are never taken.",
     [BS+"polynomial.cc", TL+"catenary_solver.cc", ST+"catenary_cable_reloader.cc", ST+"line_cable_loader_base.cc", ST+"line_cable_reloader.cc", ST+"line_cable_sagger.cc", SG+"cable_sag_position_corrector.cc", TR+"steady_cable_temperature_solver.cc", ST+"cable_component_elongation_model.cc"],
     [("iteration count tested after each search loop", "end of each search loop")], [], ["solver results"])

prop("C10", "Unit conversions use the right factor for every unit",
     "For every named conversion (length, force, angle, stress, temperature and their powers) the converted value equals the input times the physically defined ratio of the two units, raised to the requested exponent for the numerator or its inverse for the denominator. A null conversion yields the error value. Angles given to and obtained from trigonometric functions are in radians, and are converted wherever the library keeps degrees.",
     ["inputs", "configurations"], "every enumerated conversion, exponent, direction and value; every use of an angle",
     "Tests sample a few conversions at one value; a wrong factor for one enumerator, or a missing conversion hidden by a zero angle, goes unseen.",
     ["include/models/base/units.h", BS+"units.cc", "src/transmissionline", "src/sagtension", "src/thermalrating"],
     [("ConvertLength, ConvertForce, ConvertAngle, ConvertStress, ConvertTemperature", BS+"units.cc")], [], ["units::Convert*"])

prop("C11", "Every enumerated option is handled, none silently",
     "Wherever the library chooses behaviour by an enumerated option (axis direction, cable condition, constraint and target type, component, polynomial type, unit system, atmosphere quality, span end), every non-null option of the type is handled explicitly and an unset option leads to the error result, never to the behaviour of another option.",
     ["inputs", "configurations"], "every enumerator at every place that dispatches on its type",
     "Tests use one or two options per operation.",
     ["src/transmissionline", "src/sagtension", "src/sagging", "src/thermalrating", "src/base"],
     [("if/else-if and switch dispatch over enumerations", "throughout")], [], ["operations taking or holding an option"])

prop("C12", "Out-of-range indexes and empty collections are answered, not read",
     "An index or station argument outside the valid range, or a collection that is still empty, never makes the library read or write outside a collection: the operation answers with its error value or leaves the object unchanged.",
     ["inputs", "histories"], "every index and station value and every collection size, including zero",
     "Tests use a few in-range indexes; out-of-range reads are undefined behaviour that often goes unnoticed.",
     [TL+"alignment.cc", TL+"transmission_line.cc", TL+"cable_position_locator.cc", TL+"line_structure.cc", TL+"line_cable.cc", SG+"cable_sag_position_corrector.cc", SG+"transit_sagger.cc", ST+"line_cable_sagger.cc", TR+"thermal_rating_cable.cc", BS+"polynomial.cc"],
     [("IsValidIndex and range tests before list and vector access", "throughout")], [], ["index- and station-taking operations"])

prop("C13", "Stationed collections stay sorted with unique stations",
     "The alignment points of an alignment and the line structures of a transmission line are always strictly increasing in station, after any sequence of additions, modifications and deletions with any stations: an entry is placed at its sorted position and a duplicate station is refused.",
     ["histories", "inputs"], "every sequence of add, modify and delete with every station value",
     "Tests add a handful of points in one order.",
     [TL+"alignment.cc", TL+"transmission_line.cc"], [("search for the first entry not smaller, equality refused, insert before it", "AddPoint, ModifyPoint, AddLineStructure, ModifyLineStructure")],
     [("points_, line_structures_", "ordered by station", "Alignment, TransmissionLine")], ["points(), line_structures()"])

prop("C14", "A refused modification changes nothing",
     "When an operation that adds, modifies or deletes an entry of an alignment, line structure, line cable or transmission line reports failure, the object is exactly as before the call.",
     ["histories", "inputs"], "every failing call of every modifier from every state",
     "Tests check the failure code but not the untouched contents.",
     [TL+"alignment.cc", TL+"transmission_line.cc", TL+"line_structure.cc", TL+"line_cable.cc"],
     [("checks precede changes; removed entries are re-inserted when re-adding is refused", "Add*/Modify*/Delete* members")], [], ["return codes of modifiers"])

prop("C15", "Line cables only refer to structures the line owns",
     "In a transmission line every connection of every line cable refers to a line structure and attachment the line currently holds, no two cables share an attachment, and no cable with fewer than two connections remains, after any sequence of structure and cable additions, modifications, deletions and copies.",
     ["histories"], "every sequence of modifications of structures, cables and alignment, and copies of the line",
     "Tests delete one structure from one line; dangling structure references appear on other removal routes.",
     [TL+"transmission_line.cc", TL+"line_cable.cc"], [("connections removed before a structure is erased, incomplete cables erased after", "DeleteLineStructure, DeleteInvalidLineStructures, DeleteInvalidLineCables"), ("connections checked before a cable is added", "AddLineCable"), ("connections rebound to the copied structures", "copy constructor and assignment")],
     [("LineCableConnection::line_structure", "pointer into line_structures_", "TransmissionLine")], ["line_cables()"])

prop("C16", "Results depend on nothing but the object's inputs",
     "The library keeps no mutable global or static state and reads no clock, random source, environment or file, and no computation depends on the locale (only the text helpers of the base part do), so that the same inputs give the same results in any process, in any order and from any number of threads using separate objects.",
     ["schedules", "histories", "configurations"], "every operation, every interleaving of operations on separate objects",
     "A hidden dependency shows only under particular orders or threads.",
     ["src", "include/models"], [("no static or global variables, no I/O", "throughout")], [], ["whole library"])

prop("C18", "A failing step fails the whole computation",
     "When any step of a multi-step computation reports failure, the operation that needed the step reports failure too; no failing status is ignored and replaced by an unsolved or partially computed result.",
     ["inputs"], "every step of every computation and every input on which the step fails",
     "Tests contain no inputs on which inner steps fail.",
     [TL+"catenary_solver.cc", TL+"cable_position_locator.cc", ST+"cable_component_elongation_model.cc", ST+"cable_elongation_model.cc", ST+"line_cable_loader_base.cc", ST+"line_cable_reloader.cc", ST+"line_cable_unloader.cc", ST+"line_cable_sagger.cc", SG+"transit_sagger.cc", SG+"cable_sag_position_corrector.cc", TR+"transient_cable_temperature_solver.cc"],
     [("if (step() == false) return false", "Update, Solve* and Update* members")], [], ["query results"])

prop("C19", "Formulas are dimensionally consistent",
     "Every quantity the library computes has the physical dimension its meaning demands: lengths are only added to and compared with lengths, tensions with forces, angles are given to trigonometric functions in the unit they expect, and results are stored in members of their own dimension.",
     ["inputs"], "every arithmetic operation in every computation",
     "A mixed-up dimension at one site can agree numerically at the sampled values (unit weights, zero offsets, equal lengths).",
     ["src/transmissionline", "src/sagtension", "src/sagging", "src/thermalrating", "src/base"],
     [("unit documentation of members", "headers"), ("angles in degrees converted before trigonometric use", "throughout")], [], ["results"])

prop("C20", "Imperial and metric constants describe the same physics",
     "Wherever a computation selects constants by unit system, the imperial and the metric set are the same physical constants expressed in the two systems, so that the same physical situation gives the same physical answer in either system.",
     ["inputs", "configurations"], "every pair of unit-system dependent constants",
     "Tests compare each system with its own recorded answers at one or two points.",
     [TR+"cable_heat_transfer_solver.cc", TR+"solar_radiation_solver.cc", SG+"stopwatch_sagger.cc", TL+"cable_unit_load_solver.cc"],
     [("constants selected by units::UnitSystem", "thermal and solar solvers, stopwatch")], [], ["results in both unit systems"])

prop("C21", "The library parts depend on each other in one direction",
     "Base facilities use no other part, the transmission line part uses only base, sag-tension, sagging and thermal rating only base and transmission line, so each part links and works without the parts above it, as the separate libraries are delivered.",
     ["programs"], "every symbol and type reference in every translation unit",
     "All tests link all libraries together, so a reversed dependency is invisible.",
     ["src", "include/models", "build/cmake"], [("one library per directory", "build/cmake")], [], ["link of each library"])

prop("C22", "Catenary geometry satisfies the catenary equations",
     "Coordinates, lengths, sags, tensions and tangents of a catenary satisfy the exact catenary relations between end points, weight and horizontal tension to numerical accuracy.",
     ["inputs"], "every spacing, unit weight and tension", "Tests compare a few recorded values.",
     [TL+"catenary.cc"], [("closed-form hyperbolic formulas", TL+"catenary.cc")], [], ["Catenary2d, Catenary3d"])

prop("C23", "Sag-tension solutions satisfy length and constraint equations",
     "A reloaded or unloaded line cable has the unstretched length of the constrained cable, and the controlling constraint is met exactly while all others are satisfied.",
     ["inputs"], "every cable, span, weather case and constraint", "Tests compare a few recorded values.",
     [ST+"line_cable_reloader.cc", ST+"line_cable_unloader.cc", ST+"line_cable_sagger.cc", ST+"catenary_cable_reloader.cc"], [("secant searches on length difference", "sagtension solvers")], [], ["loaders and saggers"])

prop("C24", "Elongation models are monotonic and consistent with stretch history",
     "Load is a non-decreasing function of strain, and strain and load queries are inverse to each other over the whole range, for every polynomial, temperature and stretch.",
     ["inputs"], "every load, strain, stretch and temperature", "Tests compare a few recorded values.",
     [ST+"cable_component_elongation_model.cc", ST+"cable_elongation_model.cc"], [("piecewise regions", "elongation models")], [], ["Load, Strain"])

prop("C25", "Thermal ratings satisfy the heat balance",
     "Steady currents and temperatures balance heat gain and loss, and transient temperatures approach the steady temperature monotonically.",
     ["inputs"], "every cable, weather and current", "Tests compare a few recorded values.",
     [TR+"steady_cable_current_solver.cc", TR+"steady_cable_temperature_solver.cc", TR+"transient_cable_temperature_solver.cc"], [("heat transfer functions", TR+"cable_heat_transfer_solver.cc")], [], ["Current, TemperatureCable"])

P = [p for p in P if p]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
