"""Registry of the checks: property -> analysis, rule, what is trusted, minimum size."""
import importlib, report
BASE = ["clang-18 front end and its promotion of locals to SSA (sroa, mem2reg)", "engine/irx.cpp exporter", "engine/absint.py abstract semantics incl. its models of std::vector/list/string"]
CHECKS = {}
def add(pid, module, technique, rule, note, minimum, level="proof", trusted=()):
    CHECKS[pid] = dict(module=module, technique=technique, rule=rule, note=note, minimum=minimum, level=level, trusted=BASE + list(trusted))

add("C04", "a_validate", "path-sensitive abstract interpretation of every Validate (verdict x message-pushed product)",
    "for every public function with a message list: on every abstract path the returned verdict is false iff a message was pushed or a nested validation was not true; and the verdict carries no taint from the message-list argument",
    "Covers all paths of all validators for all inputs. Nested public validations are assumed to satisfy the same property (induction over the call order, each is itself an obligation).", 80)

add("C07", "a_init", "definite-assignment dataflow over every constructor and record initialiser",
    "every scalar, enumerated, flag and pointer member is assigned on every path of every constructor (implicit ones included, instantiated by a generated probe unit) before it is read; no local record or variable reaches a use unassigned",
    "Members of class type are covered through their own constructors.", 700)
add("C10", "a_units", "affine constant propagation per enumerator and exponent through the conversion functions against an independent SI oracle; degree/radian inference (union-find) over every angle",
    "units::Convert*(v, e, exponent, is_numerator) reduces to a*v+b with a, b within rounding of the SI-derived factor for each enumerator; null enumerator gives -999999; no value that flows to or from a trigonometric function in radians is unified with one kept in degrees",
    "Oracle: exact SI definitions in engine/a_units.py.", 60)
add("C11", "a_enum", "per-enumerator reachability (conditional constant propagation with the option fixed) over every dispatch on an enumeration",
    "for every function and enumerated source it tests: with the option unset only the error result is reachable (or an earlier step of the same computation rejects it); no set option shares the unset option's error behaviour; the branch of an option does not use data named after another option while its own exists",
    "", 150)
add("C16", "a_state", "effect analysis over globals, statics, external calls and pointer-order uses of the whole program",
    "no mutable or argument-dependent static storage; every external function reachable is on the list of pure ones; no pointer ordering or pointer-to-integer use; locale-dependent text functions are not reachable from any class",
    "", 400)
add("C08", "a_term", "ranking-argument inference for every loop and recursion (delta intervals per round x executable exits)",
    "every natural loop has an exit test on a counter or iterator that advances on every round towards a bound the loop does not move, independent of floating-point values; every call-graph cycle shrinks an owned chain or is broken by a flag",
    "Integer overflow of counters is ignored; user-supplied containers are finite.", 400)
add("C09", "a_limit", "conditional constant propagation from the iteration-limit exit of every numerical search to the function's returns",
    "for every loop that ends on a floating-point test or an integer limit: leaving by the limit with the tolerance unmet reaches only failure answers",
    "A loop whose tolerance is the width of a bracket it subdivides by a constant factor meets the tolerance by construction and is listed, not judged.", 6)
add("C18", "a_status", "status-effect analysis: forward evaluation from 'this step returned false' at every call of a fallible step",
    "for every call of a step with a bool status: the status is read, and every return reachable while it is false gives the caller's failure answer without storing a result",
    "Covers bool statuses; error-value doubles passing through arithmetic are outside the rule.", 90)
add("C21", "a_layers", "part dependency graph from calls, types, vtables and includes of every unit",
    "every edge between the parts (base, transmissionline, sagtension, sagging, thermalrating) is one of the allowed ones",
    "", 3000)

add("C01", "a_fresh", "up-to-date flag product analysis: per class, every sequence of public operations from every constructor, explored to a fixpoint over (flags, per cached cell: which inputs it reflects)",
    "no public query of a class with up-to-date flags can return data of a derived cell that an input was replaced after, except through a successful recomputation",
    "References are taken as set and message lists as absent; element stores in loops count as whole overwrites; objects behind pointers are fixed until the pointer is set again; hand-written operator= is analysed, compiler-generated copies are trusted to keep flags and data together.", 2000)
add("C02", "a_fail", "the same product with a ghost record of the last updater verdict",
    "no public query returns data of a derived cell while the last run of the updater that owns the cell failed",
    "Same assumptions as C01.", 500)
add("C05", "a_probe", "the same product on up-to-date objects, plus an effect analysis of const methods over objects behind pointers and references to const",
    "a const method called on an up-to-date object leaves every cell as it was (probe writes are undone), and stores nothing into an object it was given as const",
    "Pointer cells are compared by points-to set.", 500)
add("C03", "a_null", "null-pointer dataflow (path-sensitive abstract interpretation through calls) from every public validation function, with class conditions inferred from constructors and mutators",
    "no path of a validation function, started on an object with any pointer member set or unset and up-to-date flags unset, dereferences a pointer that can be null there",
    "Pointers a model object receives from its owner (component and state pointers of component models, base component of a sag-tension component, coefficients of an embedded polynomial) are judged where that object itself is validated, not again inside its owner; elements of a container are described by one summary.", 1500)

add("C06", "a_own", "ownership typestate of members holding objects from operator new, and points-to of every pointer member over all sequences of public operations",
    "an object from operator new kept in a member is freed exactly once on every path (destructor, replacement, copies); a member that points into its own object is never taken over by a copy; no pointer member is left pointing to a local variable or a reference parameter when a public operation returns",
    "Storage behind pointers the caller passes in is the caller's; connections of a line cable to structures are judged by C15; pointers stored in objects behind pointer arguments are not followed.", 1500)

add("C12", "a_index", "bounds analysis (abstract interpretation over the IR: sizes, indexes and iterator positions as linear terms with difference bounds, path-sensitive)",
    "every access to an element of a std::vector or std::list whose index is the caller's or a member's lies between zero and the size on every path; so does every access a path with nothing forgotten reaches, in locals and in collections the class's users fill",
    "Accesses by loop counters or data, and collections a class fills for itself, are proven where the bounds suffice and otherwise counted as not decided.", 60)
add("C13", "a_sorted", "shape analysis of the std::list members (abstract interpretation over the IR: pieces of a sequence, iterators, order of sort keys)",
    "at every return of every public operation of the stationed collections each element is in its original place, or new and placed after only strictly smaller and before only strictly larger keys",
    "The operation starts from any sorted list (induction over operations; constructors start from the empty list). An exit whose list is not followed is counted as undecided.", 60)
add("C14", "a_refuse", "the same shape analysis, with the original sequence kept next to the current one",
    "at every return of a public modifying operation that answers -1 or false, every list and every member other than caches holds what it held at entry",
    "Cache members are those const methods write.", 30)
add("C15", "a_conn", "protocol (typestate) analysis over the IR, path-sensitive, with loops classified by the list they walk and what they erase under which comparison",
    "on every path of the line operations a structure is erased only after its line cable connections were deleted, and the lists are trimmed before the operation returns; a line cable is taken in only when each of its connections was found to be owned, free and valid; copies relink every connection",
    "Connections inside a line cable may also be changed by the caller through its own cable object before it is added; numeric conditions of the trimming loops are judged at their boundary by the compared expressions.", 40)
add("C20", "a_scale", "abstract interpretation into symbolic formulas, one per unit system, laid over each other (ratio of constants and unit factors per term)",
    "in every method that selects by unit system, terms that are added have the same imperial/metric factor, arguments of transcendental functions have factor one, and the result has the unit factor of what it stands for",
    "Unit factors of the inputs (length, speed, radiation, resistance) and results are a table in the check; 0.3 % is allowed for published rounding (0.1 % for the atmosphere polynomials, 3.5 % for the quadratic elevation coefficient published with one digit more in one system). Formulas of different form in the two systems are undecided.", 8)

def main(pid):
    c = CHECKS[pid]
    m = importlib.import_module(c["module"])
    report.run(pid, m.analyse, c["rule"], c["trusted"], c["minimum"], c["level"])
