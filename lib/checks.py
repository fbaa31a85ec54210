"""The checks: which modules each property is decided on, by which analysis, with which floors."""
from driver import Run, analyse
import bitcode

CHECKS = {}


class Check:
    level = "other"
    explanation = ""
    technique = ""
    note = ""
    floors = {}
    ob_floors = {}
    assumptions = []
    trusted = []
    exceptions = {}  # finding id -> why the construct is right although the rule does not see it

    def runs(self, tier):
        return []

    def labels(self, tier):
        return [r.label for r in self.runs(tier)]

    def execute(self, tier, work, res):
        analyse(self.runs(tier), work, res)

    def selftest(self, work, res):
        pass


def check(c):
    CHECKS[c.id] = c()
    return c


DOMAINS = [("box_MPQ", "itv_MPQ"), ("box_D", "itv_D"), ("box_MPFR", "itv_MPFR"),
           ("oct_MPQ", "itv_MPQ"), ("oct_D", "itv_D"), ("oct_MPFR", "itv_MPFR"), ("oct_Il", "itv_Il"),
           ("avo_MPQ", "itv_MPQ"), ("avo_D", "itv_D"), ("avo_MPFR", "itv_MPFR"),
           ("pk_MPQ", "itv_MPQ"), ("pk_Rll", "itv_Rll"),
           ("t1p_MPQ", "itv_MPQ"), ("t1p_D", "itv_D"), ("t1p_MPFR", "itv_MPFR"), ("fppol_D", "itv_MPQ")]


@check
class P01(Check):
    id = "P01"
    technique = "flow-sensitive may-value analysis of the operation tables on LLVM IR, compared with every dispatch site's type"
    note = ("Every slot the library dispatches on, for every constructor and compiled number type. "
            "The operation a function implements is read off its name; two slots sharing one function, or a "
            "function named after another operation, is a finding.")
    explanation = ("For each external function returning ap_manager_t* that fills operation slots (inlined with its helpers), "
                   "the possible contents of every dispatched slot at each return are computed on the LLVM IR; each slot must be set "
                   "to a defined function that can return, that implements the slot's operation, and whose C and LLVM types are those "
                   "of the call in the generic layer; every other dispatcher must agree with the generic layer.")
    floors = {"constructors": 20, "dispatch_sites": 500}
    ob_floors = {"slot-set": 400, "slot-op": 400, "slot-type": 400, "dispatch-type": 40}

    def runs(self, tier):
        r = [Run([d, i, "apron"], "tables") for d, i in DOMAINS]
        r.append(Run(["ppl", "itv_MPQ", "apron"], "tables"))
        r.append(Run(["products", "pk_MPQ", "ppl", "itv_MPQ", "apron"], "tables"))
        return r


def per_domain(cmd, *args, extra=("ppl", "products")):
    r = [Run([d, i, "apron"], cmd, args) for d, i in DOMAINS]
    if "ppl" in extra:
        r.append(Run(["ppl", "itv_MPQ", "apron"], cmd, args))
    if "products" in extra:
        r.append(Run(["products", "pk_MPQ", "ppl", "itv_MPQ", "apron"], cmd, args))
    return r


ITVS = ["itv_MPQ", "itv_D", "itv_MPFR", "itv_Il", "itv_Rll"]
LIB = (["apron"] + ITVS + [d for d, _ in DOMAINS] + ["ppl", "products"])


@check
class P24(Check):
    id = "P24"
    technique = "buffer-capacity analysis of every formatted-output call on LLVM IR, lifted through callers"
    note = ("Every call of the printf family and of strcpy/strcat in every compiled variant. Buffers handed over by a client "
            "together with their size are the client's contract.")
    explanation = ("Each snprintf/sprintf-like call: the destination is traced to its buffer (stack array, malloc, global, parameter "
                   "lifted to all callers, stored field) and the limit compared with its capacity; limits computed from earlier lengths "
                   "must be guarded; sprintf formats must have a bounded expansion; formats must be literals.")
    floors = {"format_calls": 900, "bounded_calls": 300}
    exceptions = {"buffer-limit|ap_reducedproduct_manager_alloc|snprintf#1":
                  "the buffer is allocated with the sum of the lengths of all the texts plus 2 per separator and 100, so no text is truncated"}

    def runs(self, tier):
        return [Run([u], "format") for u in LIB + ["japron", "jgmp", "apronxx"]]


@check
class P08(Check):
    id = "P08"
    technique = "whole-library effect analysis: every global or static variable is traced to every instruction and call that may write it"
    note = ("Every variable with static storage of every compiled variant, and every call to a library routine known to work on "
            "process-wide state. Not covered: the FPU rounding mode (per thread), memory that the client itself shares between managers.")
    explanation = ("Each variable with static storage duration that is not constant is followed through address computations, local "
                   "copies and calls (into library functions by their bodies, into GMP/MPFR/libc by a table of which arguments they write); "
                   "it must never be written and its address never kept. Calls to routines with hidden process-wide state are findings.")
    floors = {"globals": 150, "external_calls": 4000}

    def runs(self, tier):
        return [Run([u], "globals") for u in LIB] + [Run(["apronxx"], "globals")]


@check
class P04(Check):
    id = "P04"
    technique = "interprocedural must-write / exposed-read dataflow of the two flags on LLVM IR, over every operation and path"
    note = ("Every operation stored in an operation table, for every domain and number type, and every level-0/level-1 interface "
            "function. Whether the value written is the right one is not decided.")
    explanation = ("Forward must analysis with callee summaries: on every path from entry to return, flag_exact and flag_best of the "
                   "operation's own manager are stored (directly, by a callee given the manager, by an exception raised on it or by an "
                   "operation dispatched through it), and no path reads them before. Helpers that return whether they raised are "
                   "expanded and their branches correlated.")
    floors = {"slot_operations": 500, "interface_functions": 60}
    ob_floors = {"flag-written": 700}

    def runs(self, tier):
        r = per_domain("flags")
        r.append(Run(["box_MPQ", "itv_MPQ", "apron"], "flags", ["generic"], label="generic"))
        return r


@check
class P05(Check):
    id = "P05"
    technique = "path-sensitive finite-state dataflow (conversion pending / examined, exactness flags) on LLVM IR, helpers expanded into each operation"
    note = ("Every operation of the octagon and absolute-value octagon domains that converts numbers, for five number types. The conversion "
            "functions' own answers are trusted, and so is the rounding of arithmetic on bounds (num_incomplete), which is not a conversion.")
    explanation = ("On every path of every operation: a conversion that can answer 'not exact' and whose answer is dropped, or a store to the "
                   "manager's conversion mark, leaves a loss pending; reading the mark as clear discharges it; clearing the mark does not. "
                   "No path may return with a loss pending and flag_exact or flag_best possibly set, except with an empty result or the "
                   "answer true, which an over-approximation cannot make wrong, or with an exception raised.")
    floors = {"converting_operations": 90}
    ob_floors = {"conversion-examined": 80}

    def runs(self, tier):
        return [Run([d, i, "apron"], "conv") for d, i in DOMAINS if d.split("_")[0] in ("oct", "avo")]


@check
class P13(Check):
    id = "P13"
    technique = "interprocedural exception-escape analysis on LLVM IR (throw sites, invoke/landingpad clauses) and must-report analysis of the handlers"
    note = ("Every function with C linkage of the PPL wrappers. Any function of the Parma library not declared nothrow is taken to throw "
            "logic errors; calls through pointers are taken not to (they lead back to C operations). bad_alloc and overflow exceptions are outside the property.")
    explanation = ("Which of std::logic_error and cannot_convert can leave each function is computed over the call graph, each call's "
                   "exceptions being reduced by the catch clauses of its landing pad; none may leave a function with C linkage. From "
                   "every handler, each path to the return raises an apron exception or clears both exactness flags, and returns a "
                   "pointer that is neither NULL nor unset.")
    floors = {"interface_functions": 80, "throwing_calls": 150, "handlers": 100}
    ob_floors = {"exception-contained": 160, "exception-reported": 80, "exception-result": 30}

    def runs(self, tier):
        return [Run(["ppl"], "exc")]


@check
class P14(Check):
    id = "P14"
    technique = "path-sensitive typestate on LLVM IR of the C++ wrappers: conditional reachability from each library call under each exception kind"
    note = ("Every wrapper of abstract0 and abstract1 (all functions of the apronxx headers that call a fallible operation, with the "
            "helpers they use expanded). In-place operators keep the C library's own guarantee for the old value.")
    explanation = ("For each call of an ap_abstract0/ap_abstract1 operation that may raise and each exception kind K: assuming the "
                   "manager's exception log holds K afterwards, branch conditions are evaluated and the reached paths must end in a throw; "
                   "before the throw the operation's result is released and neither stored in an argument nor an old value released; the old "
                   "value is released only after the last operation that may fail.")
    floors = {"fallible_calls": 180, "wrappers": 170}
    ob_floors = {"exception-checked": 180, "result-released": 130, "release-last": 60}

    def runs(self, tier):
        return [Run(["apronxx_all", "apron"], "wrap")]


@check
class P20(Check):
    id = "P20"
    technique = "loop, index and dispatch-slot analysis of every product operation on LLVM IR, with conditional evaluation of how answers combine"
    note = ("Every operation in the reduced product's operation table, helpers expanded. Operations entrusted to a callback of the particular "
            "product (reduce, approximate) are not followed. How the bounds of several components are intersected is left to P21's rules.")
    explanation = ("After expansion each operation's dispatches are decoded (slot, manager, index). One loop over all components dispatches "
                   "the operation's own slot on every iteration; manager and values carry the same index; arguments are the operation's own; "
                   "the result becomes the same component of the value returned; deciding answers decide, undecided loops run to the end; a "
                   "component found empty empties all; every path to the return gathers all flags (conjunction) and exceptions.")
    floors = {"product_operations": 45, "dispatches": 65}
    ob_floors = {"every-component": 45, "same-arguments": 40, "results-collected": 40, "answers-combined": 8, "result-stored": 20}

    def runs(self, tier):
        return [Run(["products", "pk_MPQ", "ppl", "itv_MPQ", "apron"], "product")]


WALKS = ["ap_texpr0_" + x for x in (
    "copy free fprint depth size max_dim has_dim dimlist is_interval_cst is_interval_linear is_interval_polynomial "
    "is_interval_polyfrac is_scalar substitute_with add_dimensions_with remove_dimensions_with permute_dimensions_with "
    "hash equal").split()]


@check
class P12(Check):
    id = "P12"
    technique = "must-visit dataflow over recursive expression walkers on LLVM IR, per operator, with conditional evaluation of how the answers combine"
    note = ("Every recursive function of the library, its C++ and Java bindings that walks a tree expression, for each of the nine operators. "
            "What a walker computes from the two results is decided only as far as both count, in the right order and with the right connective.")
    explanation = ("For every recursive group of functions taking tree expressions (helpers expanded) and every operator, the paths feasible for a "
                   "node of that operator are computed; each must visit the first and, for binary operators, the second operand unless the result of "
                   "one visit decides. Tests must combine as conjunction/disjunction, measures must grow, results must be used, not overwritten, "
                   "passed in operand order and stored in the operand's own field; comparisons pair corresponding operands.")
    floors = {"interface_walks": 19, "walkers": 40, "node_cases": 400}
    ob_floors = {"operand-visited": 220, "results-combined": 145}

    def runs(self, tier):
        r = [Run(["apron"], "texpr", WALKS)]
        r += [Run([i], "texpr") for i in ITVS]
        r += [Run([d, i], "texpr") for d, i in DOMAINS]
        r += [Run(["ppl"], "texpr"), Run(["japron", "apron"], "texpr"), Run(["apronxx", "apron"], "texpr")]
        return r


_unop = "ap_texpr0_unop's documented contract: a unary operator (the caller chooses the constructor by arity)"
_binop = "ap_texpr0_binop's documented contract: a binary operator (the caller chooses the constructor by arity)"
_ray = "documented contract of add_ray_array: rays and lines only, with scalar coefficients"


@check
class P10(Check):
    id = "P10"
    technique = "per-kind conditional reachability on LLVM IR of every enumerated discriminant, with the kinds callers can pass propagated over the call graph"
    note = ("Every field, argument and result of a public enumeration type in every compiled library and binding. Which treatment is right for a "
            "kind is decided only as far as opposed kinds must be told apart where a function tells kinds apart at all.")
    explanation = ("For each discriminant and each kind the interface defines (for internal functions: each kind some caller can pass), the edges "
                   "feasible under 'value = kind' are computed. An edge the kind decides into a region that can only abort, a result left "
                   "uninitialised for some kinds only, and opposed kinds treated alike in a function that tells the others apart are findings.")
    floors = {"discriminants": 5000, "dispatching": 2800}
    ob_floors = {"kind-aborts": 1250, "kinds-distinguished": 280, "kind-skipped": 75}
    exceptions = dict(
        [("kind-aborts|ap_texpr0_unop|ap_texpr_op_t=AP_TEXPR_" + o, _unop) for o in "ADD SUB MUL DIV MOD POW".split()] +
        [("kind-aborts|ap_texpr0_binop|ap_texpr_op_t=AP_TEXPR_" + o, _binop) for o in "NEG CAST SQRT".split()] +
        [("kind-aborts|_ZN5apron6texpr%d7builderC2E13ap_texpr_op_tRKS1_16ap_texpr_rtype_t15ap_texpr_rdir_t|ap_texpr_op_t=AP_TEXPR_%s" % (v, o), _unop)
         for o in "ADD SUB MUL DIV MOD POW".split() for v in (0, 1)] +
        [("kind-aborts|_ZN5apron6texpr%d7builderC2E13ap_texpr_op_tRKS1_S4_16ap_texpr_rtype_t15ap_texpr_rdir_t|ap_texpr_op_t=AP_TEXPR_%s" % (v, o), _binop)
         for o in "NEG CAST SQRT".split() for v in (0, 1)] +
        [("kind-aborts|t1p_aff_eval_node_unary|ap_texpr0_node_t.op=AP_TEXPR_%s<t1p_aff_eval_ap_texpr0" % o,
          "called only for nodes without second operand, which have unary operators") for o in "ADD SUB MUL DIV".split()] +
        [("kind-aborts|t1p_aff_eval_node_binary|ap_texpr0_node_t.op=AP_TEXPR_%s<t1p_aff_eval_ap_texpr0" % o,
          "called only for nodes with a second operand, which have binary operators") for o in "NEG SQRT".split()] +
        [("kind-aborts|box_add_ray|ap_coeff_t.discr=AP_COEFF_INTERVAL", _ray),
         ("kind-aborts|box_add_ray|ap_generator0_t.gentyp=AP_GEN_VERTEX<box_add_ray_array", _ray),
         ("kind-aborts|vector_set_ap_generator0|ap_generator0_t.gentyp=AP_GEN_VERTEX<pk_matrix_append_ap_generator0_array", _ray)] +
        [("kind-aborts|ap_pkgrid_reduce|ap_scalar_t.discr=AP_SCALAR_" + k,
          "looks at bounds the rational polyhedra and grid domains have just produced, which are rationals") for k in ("DOUBLE", "MPFR")] +
        [("kinds-distinguished|ap_pkgrid_reduce|ap_scalar_t.discr:AP_SCALAR_DOUBLE~AP_SCALAR_MPFR",
          "looks at bounds the rational polyhedra and grid domains have just produced, which are rationals")])

    def runs(self, tier):
        r = per_domain("kinds")
        r += [Run(["japron", "apron"], "kinds"), Run(["apronxx_all", "apron"], "kinds")]
        return r


_mid = "the middle of an interval: any value near it will do, its distance to both ends is computed from it (rounded upwards)"
_lower = "of a reduced inequality only the upper end of the constant matters (the lower end is enlarged for an equality)"


@check
class P09(Check):
    id = "P09"
    technique = "rounding-direction dataflow over memory cells on LLVM IR (directed, negated and conversion results tracked to the bounds they end in)"
    note = ("Every function of the number, interval, conversion and domain layers in every compiled number type (fppol: modes only, it keeps its "
            "own floating-point discipline; values its hardware-float functions produce are not tracked). Magnitudes are not computed: an operation is "
            "upward if it is executed with that direction.")
    explanation = ("Each floating-point, MPFR and GMP operation that may be inexact gives the cell it writes a direction; negation flips it, copies "
                   "keep it, a test that the operation was exact clears it. At every return, cells that outlive the function must hold results "
                   "rounded towards +oo only (the second result of roots and powers and the lower end of client intervals: -oo). Constant modes handed to "
                   "number functions are directed; the operations of the number layer reach only division and integer rounding of their own direction; "
                   "functions that change the processor's mode restore it; managers on hardware floats set it first.")
    floors = {"cells": 800, "inexact_operations": 15000}
    ob_floors = {"rounding-direction": 200, "directional-operation": 95, "rounding-mode": 2, "fpu-upward": 4}
    exceptions = dict(
        [("rounding-direction|itv_middev|%s -> __itv_struct.%s" % (v, e), _mid) for v in ("a", "_p", "mid", "dev") for e in ("inf", "sup")] +
        [("rounding-direction|t1p_assign_texpr_array|_t1p_aaterm_t.coeff.inf", _mid)] +
        [("rounding-direction|itv_lincons_reduce_integer_%s|%s -> itv_lincons_t.linexpr.cst.inf" % (t, v), _lower) for t in ("D", "MPFR") for v in ("cons", "a")])

    def runs(self, tier):
        r = []
        for d, i in DOMAINS:
            if d.startswith("fppol"):
                r.append(Run([d, i, "apron"], "rounding", ["light", "float"]))
            else:
                r.append(Run([d, i, "apron"] + (["box_D"] if d == "t1p_D" else []), "rounding", ["float"] if d.endswith("_D") else []))
        return r + [Run([i, "apron"], "rounding") for i in ITVS]


@check
class P02(Check):
    id = "P02"
    technique = "conditional constant propagation over the expanded, peeled operations of the generic layer, under every kind of unfitting argument"
    note = ("Every exported level-0 operation that takes a value and reaches a domain. Arrays and sparse expressions up to two entries (the first three iterations of every loop are "
            "looked at one by one); values of one integer and one real dimension (fold: two real), and values without dimensions. "
            "The sortedness of sparse expressions is assumed, as the interface says.")
    explanation = ("For each level-0 operation, inlined with its checking helpers and with the first three iterations of its loops taken out, and for each way an argument can fail to fit "
                   "(another library, other dimensions, a dimension, expression, constraint, generator, tree, dimension change or permutation outside the value, "
                   "an empty array; at every position of an array), the components of the arguments are assumed and constants are propagated along feasible edges: "
                   "no call of the manager's operation on a client's value may be feasible, and every feasible path to the return must raise the "
                   "invalid-argument exception with the operation's identifier. With fitting arguments the domain's operation must be feasible.")
    floors = {"operations": 42, "scenarios": 500}
    ob_floors = {"fitting-reaches-domain": 100, "unfit-argument-stopped": 250, "unfit-argument-raised": 250, "element-in-array": 450}

    def runs(self, tier):
        return [Run(["apron"], "args")]


@check
class P03(Check):
    id = "P03"
    technique = "conditional constant propagation over the expanded, peeled level-1 operations, under every relation between the environments of their arguments"
    note = ("Every exported level-1 operation on values that combines a value with another value, an expression, a constraint, a generator, a variable or an environment. "
            "Environments are abstracted to four (the value's, a smaller one, one with other types, a larger one); arrays to two entries. "
            "What ap_environment_is_eq, _is_leq, _compare, _dimchange, _dimchange2, _lce, _dim_of_var, _mem_var and the builders answer for them is trusted.")
    explanation = ("For each level-1 operation, inlined with its helpers and with the first three iterations of its loops taken out, and for each relation between the environments of "
                   "its arguments, the answers of the tests on environments are assumed and constants are propagated along feasible edges: when they do not fit, no level-0 operation may be "
                   "reachable and every feasible path to the return must raise the invalid-argument exception; when an expression's environment is strictly smaller, what reaches level 0 must not be "
                   "the client's own level-0 expression; when they fit, level 0 must be reachable.")
    floors = {"operations": 28, "scenarios": 150}
    ob_floors = {"fitting-reaches-level-0": 35, "unfit-stopped": 90, "unfit-raised": 90, "expression-extended": 15}

    def runs(self, tier):
        return [Run(["apron"], "envs")]


@check
class P15(Check):
    id = "P15"
    technique = "conditional constant propagation over the expanded Java natives, one argument assumed null or negative at a time; declared natives compared with the C functions"
    note = ("Every native method of packages apron and gmp except the class Pplite, whose library is not available. Objects and integers read out of argument objects and arrays count "
            "as arguments; enumerated kinds stored in public fields do not.")
    explanation = ("The headers javac generates from the Java classes give the declared natives; each must be defined in C with the same types, and no short-named C function may shadow an overloaded method. "
                   "For each native (inlined with its conversion helpers) and each object or integer argument, or object, integer or array read out of one, that value is assumed null (negative) and "
                   "constants are propagated along feasible edges: no call of the Java environment that dereferences it, and no unsigned parameter, array length or index computed from it, may be feasible.")
    floors = {"natives": 390, "declared": 390}
    ob_floors = {"native-defined": 390, "native-typed": 390, "null-checked": 670, "negative-checked": 200, "null-component-checked": 14, "negative-component-checked": 9}
    exceptions = {"negative-checked|Java_gmp_RandState_Seed__I|i": "a seed is any value: the sign extension loses nothing"}

    def runs(self, tier):
        return [Run(["japron_t", "jgmp_t", "jnative", "apron"], "jargs")]


OWN = ["box_MPQ", "box_MPFR", "oct_MPQ", "oct_MPFR", "avo_MPQ", "avo_MPFR", "pk_MPQ"]


@check
class P06(Check):
    id = "P06"
    technique = "ownership summaries of every function, then path exploration of each acquired resource from its acquisition to the return, on LLVM IR"
    note = ("Not taylor1plus and fppol (experimental) and the C++ part of ppl. A resource stored where the caller can see it (or passed to a function that may keep it) counts as handed over. "
            "Loops are explored with facts about conditions, not with counts.")
    explanation = ("Summaries say for each function which parameters it releases, initialises or keeps and whether its result is fresh. For every call that acquires a resource in a local "
                   "(allocation, fresh result, number or bound initialised in place) all feasible paths to the returns are followed, with the tests already decided on the way: "
                   "the resource is released or handed over on each, released once, and not used afterwards.")
    floors = {"functions": 2500, "resources": 1500}
    ob_floors = {"released-on-every-path": 500, "released-once": 500, "not-used-after-release": 500}
    exceptions = {
        "released-on-every-path|avo_add_dimensions|mm of avo_hmat_alloc_top": "the exit repeats a test of the same arguments that has succeeded before",
        "released-on-every-path|avo_permute_dimensions|mm of avo_hmat_alloc": "the exit repeats a test of the same arguments that has succeeded before",
    }

    def runs(self, tier):
        r = [Run(["apron", "itv_MPQ", "itv_D", "itv_MPFR"], "own", ["local"])]
        d = dict(DOMAINS)
        r += [Run([u, d[u], "apron"], "own", ["local", "/box/", "/octagons/", "/avoct/", "/newpolka/", "/itv/", "/num/"]) for u in OWN]
        r.append(Run(["products", "pk_MPQ", "ppl", "itv_MPQ", "apron"], "own", ["local", "/products/"]))
        return r


@check
class P16(Check):
    id = "P16"
    technique = "path analysis of the Java natives on LLVM IR: exception log examined after each raising call, ownership of every resource"
    note = "Every native method of packages apron and gmp except the class Pplite. Whether a library function can raise is decided on the linked generic layer."
    explanation = ("For every call, in a native, of a library function that can raise (it reaches ap_manager_raise_exception or an operation slot), each path to the return loads and tests the exception log of "
                   "the manager; on the edge with an exception a Java exception is thrown on every path and no Java value is built; the thrower empties the log. Every array, string and library object a "
                   "native acquires is released or handed over on every path, once, and not used afterwards.")
    floors = {"natives": 43, "raising_calls": 45, "tests": 43, "resources": 75}
    ob_floors = {"exception-checked": 45, "exception-thrown": 43, "result-withheld": 43, "log-emptied": 1, "released-on-every-path": 60}

    def runs(self, tier):
        u = ["japron_t", "jgmp_t", "jnative", "apron"]
        return [Run(u, "jexc"), Run(u, "own", ["all", "/japron/"])]


@check
class P22(Check):
    id = "P22"
    technique = "abstract interpretation of every operation on LLVM IR, dimensions held as linear expressions over the arguments' dimensions, helpers expanded in place"
    note = ("The generic level-0 layer (its slot calls take what the slot promises) and the box, octagon, absolute-value octagon and polyhedra/linear-equality domains. "
            "Not the products, ppl, taylor1plus and fppol; in the domains, array arguments are what the generic layer lets through.")
    explanation = ("Every path of every operation, once for destructive=false and once for true: the integer and real dimensions stored in the value returned are compared, as linear expressions, "
                   "with those the interface promises (unchanged, summed, subtracted, as requested), also after an exception; arguments that stay with the caller keep theirs.")
    floors = {"operations": 450}
    ob_floors = {"dimensions-promised": 210, "argument-dimensions-kept": 110}

    def runs(self, tier):
        d = dict(DOMAINS)
        r = [Run(["apron"], "dims", ["generic"], label="generic")]
        for u in DIMS:
            r.append(Run([u, d[u], "apron"], "dims"))
        return r


DIMS = ["box_MPQ", "box_D", "box_MPFR", "oct_MPQ", "oct_D", "oct_MPFR", "avo_MPQ", "avo_D", "avo_MPFR", "pk_MPQ"]


@check
class P23(Check):
    id = "P23"
    technique = "reference-count balance by path exploration of each reference taken, given or held by a parameter, on LLVM IR with local helpers expanded"
    note = ("The functions of the generic layer that handle environments (ap_environment_copy and ap_environment_free are the counting primitives). "
            "ap_abstract1_environment and the array accessors hand out borrowed references and take over the argument's, as their headers document.")
    explanation = ("Each function that mentions an environment or a level-1 type is expanded with its local helpers, once per value of its destructive flag. Every reference acquired is released or ends in the result on each "
                   "path, once; a reference the caller keeps may enter a result only through ap_environment_copy and is not released; the reference of a value consumed is released or passed on; one that is overwritten is released first.")
    floors = {"functions": 150, "parameters": 150}
    ob_floors = {"released-on-every-path": 60, "kept-reference-acquired": 100, "borrowed-reference-left": 100, "consumed-reference-passed-on": 10}
    exceptions = {
        "kept-reference-acquired|ap_abstract1_environment|a->env": "documented: a reference, its count not incremented",
        "kept-reference-acquired|ap_lincons1_array_get|array->env": "documented: a reference into the array, not to be freed",
        "kept-reference-acquired|ap_generator1_array_get|array->env": "documented: a reference into the array, not to be freed",
        "kept-reference-acquired|ap_tcons1_array_get|array->env": "documented: a reference into the array, not to be freed",
    }

    def runs(self, tier):
        return [Run(["apron"], "own", ["env", "/apron/"])]


class Cellwise(Check):
    mode = None

    def runs(self, tier):
        return [Run([d, i, "apron"], "cells", [self.mode]) for d, i in DOMAINS if d.split("_")[0] in ("box", "oct", "avo")]


@check
class P21(Cellwise):
    id = "P21"
    mode = "lattice"
    technique = "abstract interpretation of LLVM IR over generic cells: matrices and arrays as one cell per position polynomial, comparisons split the path and record an order on bounds"
    note = ("Join, meet, their array forms (on two and three values), inclusion and equality of the interval, octagon and strict-octagon domains, copying and "
            "destructive, in every compiled number type, with their helpers expanded down to the bound operations; the bodies of the larger/smaller choice of "
            "the bound and number layers. Closure is trusted to keep the meaning of a matrix; the order of bounds (bound_cmp) is the number library's.")
    explanation = ("Each loop over positions is run once on a generic position (a polynomial in the loop's counters and the value's dimensions). A comparison of "
                   "two cells splits the path three ways and records the order; copying records which argument's bound a cell holds. At each return: a cell of a join "
                   "holds an argument's bound no path allows to be smaller than another's (meet: larger), at its own position and side; every bound is set; the "
                   "position runs over the whole matrix or array; inclusion and equality answer yes only where the recorded order forces it and no only where it "
                   "refutes it; empty arguments are neutral for join and least for inclusion.")
    floors = {"operations": 150, "paths": 3000, "cells_judged": 3000}
    ob_floors = {"bound-direction": 25, "positions-covered": 20, "larger-or-smaller": 8, "empty-argument": 6}


@check
class P17(Cellwise):
    id = "P17"
    mode = "widening"
    technique = "abstract interpretation of LLVM IR over generic cells (same engine as P21) applied to widenings"
    note = ("The widenings, with and without thresholds, of the interval, octagon and strict-octagon domains in every compiled number type. With thresholds one "
            "generic threshold stands for all.")
    explanation = ("At each return every bound of the result must be the first argument's at the same position, kept only on paths where the second's is not larger, "
                   "or +oo, or a threshold; never a bound of the second argument, a computed one, or one read from or written to a closed form of the first "
                   "argument when an unclosed one exists.")
    floors = {"operations": 16, "paths": 200, "cells_judged": 200}
    ob_floors = {"bound-kept": 5, "positions-covered": 3}
