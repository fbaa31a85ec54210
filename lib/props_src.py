#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("P01", "Every domain manager answers every operation with its own implementation",
     "A manager returned by any domain constructor (box, oct, avo, polka strict/loose/equalities, PPL polyhedra strict/loose, PPL grids, taylor1plus, fppol, the polka-grid product) has every slot of its operation table set. "
     "The function in each slot is that domain's implementation of that very operation, and takes and returns exactly what the generic layer passes to and expects from that slot.",
     ["configurations", "programs"],
     "for every manager constructor, every compiled number type, and every operation identifier the generic layer can dispatch on",
     "A test calls a handful of operations on a handful of managers; an unset or swapped slot only shows when a client calls that very operation on that very domain (several are called by no test at all).",
     ["apron/ap_manager.c", "apron/ap_abstract0.c", "apron/ap_reducedproduct.c", "box/box_representation.c", "box/box_internal.c", "octagons/oct_representation.c",
      "avoct/avo_representation.c", "newpolka/pk_constructor.c", "newpolka/pk_internal.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "taylor1plus/t1p_representation.c",
      "fppol/fpp_representation.c", "products/ap_pkgrid.c"],
     [("funptr table filled by each *_manager_alloc", "box/box_internal.c, octagons/oct_representation.c, ..."),
      ("generic dispatch through man->funptr[AP_FUNID_x]", "apron/ap_abstract0.c")],
     [("funptr", "operation table of a manager", "apron/ap_manager.h")])

prop("P02", "Generic layer checks every argument before calling a domain",
     "An operation of the level-0 interface never hands a domain an argument that does not fit: a value built by another library, two values of different dimensions, a dimension, a linear or tree expression, a constraint, a generator, a dimension change or a permutation that mentions a dimension the value does not have, or an empty array of values. "
     "When some argument does not fit, the operation raises the invalid-argument exception with its own operation identifier and does not call the domain.",
     ["inputs"],
     "for every level-0 operation and every combination of arguments of any size, dimension and manager",
     "Tests only pass well-formed arguments: no test exercises a rejected one, so a missing or off-by-one check is invisible to them.",
     ["apron/ap_abstract0.c"],
     [("ap_abstract0_check* / ap_abstract0_checkman*", "apron/ap_abstract0.c"), ("ap_manager_raise_exception", "apron/ap_manager.c")],
     None, ["ap_abstract0_* entry points"])

prop("P03", "Level-1 operations reject incompatible environments",
     "An operation on values with environments never combines two of them, or a value and an expression, constraint, generator or variable, without having established that their environments fit: equality for binary operations, inclusion of the expression's environment (by extension), presence of every named variable. "
     "Otherwise it raises the invalid-argument exception and the level-0 operation is not called.",
     ["inputs"],
     "for every level-1 operation and every pair of environments",
     "Tests use one environment throughout; the mismatch paths run in none of them.",
     ["apron/ap_abstract1.c", "apron/ap_environment.c"],
     [("ap_abstract1_check_env* and ap_environment_dimchange", "apron/ap_abstract1.c")])

prop("P04", "Exactness flags are always written by the operation that just ran",
     "After any operation that computes an abstract value, a test or a bound (creation, transfer functions, lattice operations, dimension changes, queries, conversions; not copying, printing, hashing, freeing) returns through a manager, at the level of the domains, of the generic layers or of the product, the exact and best flags of that manager's result were written by that operation on the path it took: neither is left over from an earlier operation.",
     ["histories", "inputs"],
     "for every domain operation that computes an abstract value, a test or a bound, and every path through it (including early returns for empty, trivial or erroneous arguments)",
     "A stale flag shows only for particular histories (an earlier operation that left the other value) and on particular early-return paths; no test reads the flags after such a path.",
     ["octagons", "avoct", "box", "newpolka", "ppl", "taylor1plus", "apron/ap_reducedproduct.c"],
     [("*_init_from_manager resets flags", "octagons/oct_internal.h, newpolka/pk_internal.h"), ("flag_* macros", "octagons/oct_internal.h")],
     [("result.flag_exact / flag_best", "exactness of the last operation", "apron/ap_manager.h")])

prop("P05", "A lossy number conversion is never reported as exact (octagon domains)",
     "In the octagon and absolute-value octagon domains, when an operation had to round a number while converting between user numbers and its bounds, it does not go on to report its result as exact or best without having examined whether rounding occurred.",
     ["inputs"],
     "for every operation of the two domains that converts numbers, and every number",
     "The tests check flags only with rational bounds, where conversions are exact; the rounding path needs a float or integer number type and an unrepresentable constant.",
     ["octagons", "avoct"],
     [("pr->conv set by num_set_* conversions and tested by flag_conv / flag_algo macros", "octagons/oct_internal.h")],
     [("conv", "some conversion lost precision during this operation", "octagons/oct_internal.h")])

prop("P06", "Local numbers and temporaries are released on every path",
     "Whatever an operation initialises in a local variable (multi-precision numbers, bounds, intervals, expressions, and buffers it allocates and does not hand over) is released exactly once before it returns, on every path including early exits and error exits (allocation failures aside); nothing is released twice or used after release.",
     ["inputs", "fault_sequences"],
     "for every C function of the generic layer, the interval library, the box, octagon, absolute-value octagon, and polyhedra domains and the products (not the experimental taylor1plus and fppol), and every path from entry to return",
     "The leaking paths are early exits that need unusual arguments; the test suite does not measure leaks, so even an executed leak passes.",
     ["apron", "num", "itv", "box", "octagons", "avoct", "newpolka", "products"],
     [("*_init / *_clear pairs", "num/*.h, itv/*.h"), ("malloc/free pairs", "all")])

prop("P07", "Non-destructive operations leave their arguments alone",
     "When an operation that takes a destructive flag is called with the flag off, it neither releases nor changes the bounds, the dimensions or the emptiness of the value it is given (internal caches such as the closed form aside). With the flag on, the value given is either the one returned or is released exactly once.",
     ["inputs", "histories"],
     "for every operation with a destructive flag in every domain, and every path through it",
     "A test compares results, not the argument afterwards, and in most domains calls one of the two modes per operation.",
     ["box", "octagons", "avoct", "newpolka", "taylor1plus"],
     [("destructive parameter threaded through *_set_mat, box_copy, poly_alloc", "octagons/oct_internal.h, box/, newpolka/")])

prop("P08", "Managers share no mutable state",
     "Two managers never communicate through the library: operations keep all working storage in the manager or in the values, and no library function writes to a global or static variable.",
     ["schedules"],
     "for every pair of operations on two different managers in two threads, under every interleaving",
     "No test is multi-threaded; a static scratch buffer passes all of them.",
     ["apron", "itv", "box", "octagons", "avoct", "newpolka", "ppl", "taylor1plus", "products"],
     [("per-manager internal structures", "*_internal.h")])

prop("P09", "Inexact arithmetic on bounds always rounds towards plus infinity",
     "Bounds of intervals and constraints are stored so that enlarging them is sound (a lower bound is stored negated), and every arithmetic operation or conversion that produces one from a number that may not be representable rounds towards plus infinity. Every domain manager that works on hardware floats puts the processor in that rounding mode before it is handed to the client.",
     ["inputs"],
     "for every number type and every bound operation and conversion in the library",
     "A wrong direction changes the last bit of a few results; the tests compare domains with each other or check inclusions with small rational constants, which are representable.",
     ["num/numflt_mpfr.h", "num/numrat_mpq.h", "num/numflt_native.h", "num/num_numflt.h", "apron/ap_scalar.c", "octagons/oct_internal.h"],
     [("GMP_RNDU / MPFR_RNDU arguments, ap_fpu_init", "num/, apron/ap_scalar.c, *_manager_alloc")])

prop("P10", "Every kind of constraint, generator, expression or number has its own case",
     "Code that acts according to the kind of a scalar, coefficient, expression node, operator, rounding mode, number type, constraint, generator or exception provides a case for every kind the public interface defines: no legal kind falls into an abort, an assertion failure, an uninitialised result or the treatment of another kind by omission.",
     ["inputs"],
     "for every multi-way branch on a public kind in the C library and every value of that kind",
     "The kinds that are easily forgotten (modulo equalities, disequalities, line and mod generators, MPFR scalars, rounding modes) are the ones no test feeds to most of the functions.",
     ["apron", "itv", "box", "octagons", "avoct", "newpolka", "ppl", "taylor1plus", "japron"],
     [("switch statements over ap_scalar_discr_t, ap_coeff_discr_t, ap_constyp_t, ap_gentyp_t, ap_texpr_*", "whole library")])

prop("P11", "Copies, comparisons and hashes cover every component of a datum",
     "Copying a scalar, interval, coefficient, linear or tree expression, constraint, generator, dimension change, environment, or a domain value produces a datum in which every component is set from the original's and owned storage is not shared; equality and comparison depend on every component; releasing one releases every owned component.",
     ["inputs"],
     "for every copy / equality / comparison / release function of the library's data types and every component of the type",
     "Tests compare values that differ in the obvious component; one forgotten component needs two data that agree on all the others.",
     ["apron/ap_scalar.c", "apron/ap_interval.c", "apron/ap_coeff.c", "apron/ap_linexpr0.c", "apron/ap_lincons0.c", "apron/ap_tcons0.c", "apron/ap_texpr0.c", "apron/ap_generator0.c", "apron/ap_environment.c", "octagons", "box"],
     [("*_copy, *_equal, *_cmp, *_clear, *_free", "apron/")])

prop("P12", "Operations on expression trees treat both operands of a binary node",
     "Every operation that walks a tree expression (copy, release, comparison, hash, size, depth, collecting or testing dimensions, adding, removing or permuting dimensions, classifying, evaluating, linearising, printing, conversion to Java) visits the first operand of every node and the second operand of every binary node, and combines the results of both.",
     ["inputs"],
     "for every recursive walk over tree expressions and every expression",
     "The tests use random trees in a few operations; most walkers are run on no tree whose second operand matters.",
     ["apron/ap_texpr0.c", "apron/ap_texpr1.c", "apron/ap_linearize.c", "apron/ap_linearize_aux.c", "itv/itv_linearize.c", "japron/apron/japron.c"],
     [("recursion on exprA and exprB", "apron/ap_texpr0.c")])

prop("P13", "PPL exceptions never cross into C code",
     "An operation of a PPL-based domain that fails inside the Parma library with a logic error (bad dimension, length overflow, ...) or an impossible conversion is turned into an apron exception or an inexact result with a usable value; no such C++ exception escapes through the C interface.",
     ["fault_sequences", "inputs"],
     "for every C entry point of the PPL wrapper and every call in it that can throw",
     "The PPL tests feed only convertible, well-dimensioned arguments, so no handler runs.",
     ["ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "ppl/ppl_user.cc"],
     [("try / CATCH_WITH_* in each extern \"C\" function", "ppl/ppl_poly.cc, ppl/ppl_grid.cc")])

prop("P14", "C++ wrappers report every library exception",
     "A C++ wrapper that calls a library operation through a manager checks that manager for a raised exception before it returns or uses the result, and throws if there was one; the value the failed operation returned is released, and the object being assigned keeps its old value.",
     ["fault_sequences", "inputs"],
     "for every wrapper function of the C++ interface and every library operation it calls",
     "The C++ test never makes an operation fail.",
     ["apronxx"],
     [("manager::raise after each call", "apronxx/apxx_abstract0_inline.hh, apxx_abstract1_inline.hh, apxx_manager_inline.hh")])

prop("P15", "Java native methods match their C functions and check their arguments",
     "Every native method declared in the Java classes has exactly one C function, whose parameters agree with the declaration; every object argument, and every object found inside one, is checked for null before it is used, and every integer used as a size, index, dimension or other unsigned quantity for being non-negative. No C function answers to two overloads of a method.",
     ["inputs", "configurations"],
     "for every native method of the Java interface and every argument value",
     "The Java tests pass no null or negative argument, and call about half of the native methods.",
     ["japron/apron", "japron/gmp"],
     [("check_nonnull / check_positive macros", "japron/gmp/jgmp.h"), ("javac -h headers", "japron/Makefile")])

prop("P16", "Java native methods propagate failures and release what they acquired",
     "A Java native method that calls a library operation checks the manager for an exception before it hands the result to Java; it releases each array or string it acquired from the virtual machine, and each library object it built for the call, on every path.",
     ["fault_sequences", "inputs"],
     "for every native method and every path through it",
     "The Java tests make one or two operations fail and do not measure leaks.",
     ["japron/apron"],
     [("check_exc, ReleaseXArrayElements, *_free", "japron/apron/apron_Abstract0.c")])

prop("P17", "Widening keeps a bound or gives it up",
     "Each bound of the result of a widening in the interval and octagon domains is either the corresponding bound of the first argument where the second's is not larger, plus infinity, or, for widening with thresholds, one of the thresholds that is not below the second's bound: it is never a bound taken or computed from the second argument, nor one of a closed form of the first when an unclosed one exists, so every increasing chain stabilises above both arguments.",
     ["inputs", "histories"],
     "for every pair of values and every bound of the result",
     "A sequence of random widenings that happens to stop does not show that every sequence does; a bound leaking from the second argument still gives a sound upper bound, so inclusion tests pass.",
     ["octagons/oct_nary.c", "avoct/avo_nary.c", "box/box_otherops.c", "itv/itv.h"],
     [("cell-wise widening loops", "octagons/oct_nary.c")])

prop("P18", "Serialised values are read back field for field",
     "Deserialising consumes the bytes that serialising produced, field by field in the same order with the same type and the same repetition, for numbers, bounds, intervals, boxes, octagons, scalars, environments and level-0/level-1 values.",
     ["inputs"],
     "for every serialiser / deserialiser pair and every value",
     "A round trip on one number type and a few values does not run the other kinds (infinite bounds, MPFR, empty values, named variables).",
     ["num", "num/bound_def.h", "itv/itv.h", "box/box_representation.c", "octagons/oct_print.c", "avoct/avo_representation.c", "apron/ap_abstract0.c", "apron/ap_abstract1.c"],
     [("*_serialize_raw / *_deserialize_raw", "num/, itv/, octagons/, box/")])

prop("P19", "A failed conversion inside the polyhedra domain is noticed by its caller",
     "In the polyhedra domain, when a conversion between constraints and generators is abandoned (number overflow, space limit), the operation that asked for it looks at the failure before it uses the converted representation, clears it before it returns to the client, and falls back to a sound result.",
     ["fault_sequences", "inputs"],
     "for every operation of the polyhedra and linear-equalities domains and every conversion it asks for",
     "No test sets a coefficient limit, so no conversion is ever abandoned.",
     ["newpolka"],
     [("pk->exn set by cherni_*, tested by every caller", "newpolka/pk_cherni.c, pk_representation.c, pk_meetjoin.c, ...")],
     [("exn", "pending internal failure", "newpolka/pk_internal.h")])

prop("P20", "A product operation acts on every component with the same operation",
     "Each operation of a reduced product calls, for every component in turn, the same operation of that component's own manager on that component's own value, and the product's exact and best flags and its exceptions are gathered from all components.",
     ["inputs", "configurations"],
     "for every operation of the reduced product, any number of components",
     "Only the two-component polka-grid product exists, and its tests call a few operations.",
     ["apron/ap_reducedproduct.c", "products/ap_pkgrid.c"],
     [("loops over intern->size with tmanagers[i]->funptr[AP_FUNID_x]", "apron/ap_reducedproduct.c")])

prop("P21", "Join takes the weaker and meet the stronger of two bounds",
     "In the interval and octagon domains, every bound of a join is the larger, and of a meet the smaller, of the arguments' bounds at the same position; inclusion compares every position in the direction of the order and equality compares every position both ways; empty arguments are neutral for join and included in everything.",
     ["inputs"],
     "for every pair of values of equal dimension and every bound",
     "Tests compare a few random values; a swapped pair at one position or for one bound kind needs particular values.",
     ["octagons/oct_nary.c", "avoct/avo_nary.c", "box/box_meetjoin.c", "box/box_representation.c", "itv/itv.h"],
     [("bound_bmax / bound_bmin, itv_join / itv_meet", "num/bound_def.h, itv/itv.h")])

prop("P22", "The dimensions of a result are the ones the operation promises",
     "In the generic level-0 layer and in the box, octagon, absolute-value octagon and newpolka (polyhedra, linear equalities) domains, the numbers of integer and real dimensions of the value an operation returns are those its interface promises in terms of its arguments (unchanged for transfer functions, sums for added, differences for removed or folded dimensions, as requested for constructors), on every path, including the value returned after an exception; a non-destructive operation leaves the dimensions of its arguments as they were.",
     ["inputs", "fault_sequences"],
     "for every level-0 operation returning a value, in the generic layer and in the box, oct, avoct and newpolka domains, on every path",
     "Tests read dimensions of few results and none after an error.",
     ["apron/ap_abstract0.c", "box", "octagons", "avoct", "newpolka"],
     [("ap_abstract0_checkman* fallbacks, *_alloc_internal(dim,intdim)", "apron/ap_abstract0.c")])

prop("P23", "Reference counts of environments balance",
     "Every level-1 operation leaves the reference count of an environment increased by exactly the references held by the values it returns: none is dropped while still referenced, none is kept after the last value is released.",
     ["inputs", "fault_sequences", "histories"],
     "for every level-1 function and every path through it",
     "A lost or surplus reference shows only after the last legitimate holder is freed, and never as a wrong result; the tests do not look at counts.",
     ["apron/ap_abstract1.c", "apron/ap_environment.c", "apron/ap_linexpr1.c", "apron/ap_lincons1.c", "apron/ap_generator1.c", "apron/ap_texpr1.c", "apron/ap_tcons1.c"],
     [("ap_environment_copy / ap_environment_free", "apron/ap_environment.h")],
     [("count", "reference count", "apron/ap_environment.h")])

prop("P24", "Messages and names are formatted within their buffers",
     "Text the library formats into a fixed buffer (exception messages, default variable names, version strings) is written with a limit no larger than that buffer, and client text is never used as a format.",
     ["inputs"],
     "for every formatted-output call in the library",
     "Needs messages longer than any a test provokes.",
     ["apron", "itv", "box", "octagons", "avoct", "newpolka", "ppl", "japron"],
     [("snprintf(buf,sizeof buf,...)", "apron/ap_abstract0.c and others")])

# ---- outside the reach of static analysis -------------------------------
prop("P40", "Operations over-approximate the concrete semantics",
     "Every transfer function, test and conversion of every domain returns a value that contains all the concrete points the operation can reach from the points of its arguments.",
     ["inputs"], "for every abstract value, expression and constraint",
     "It quantifies over all numbers and all polyhedra; tests sample a few.",
     ["octagons", "avoct", "newpolka", "box", "taylor1plus", "ppl", "fppol"], [("the numeric algorithms themselves", "all domains")])
prop("P41", "Closure and minimisation do not change the value",
     "Putting an octagon in closed form, or minimising or canonicalising a polyhedron, changes its representation and not the set it denotes; closing a closed octagon changes nothing.",
     ["inputs"], "for every value", "Numeric equality of fixpoints over all matrices.",
     ["octagons/oct_closure.c", "avoct/avo_closure.c", "newpolka/pk_cherni.c"], [("hmat_close, cherni_conversion", "octagons/oct_closure.c")])
prop("P42", "Linearisation encloses the expression it replaces",
     "The interval linear form computed from a tree expression encloses the values of the expression, rounding errors included, for all environments within the given bounds.",
     ["inputs"], "for every expression and every box", "Quantifies over real arithmetic with rounding.",
     ["itv/itv_linearize.c", "apron/ap_linearize.c"], [("itv_intlinearize_*", "itv/itv_linearize.c")])
prop("P43", "Extrapolation terminates in the polyhedra domain",
     "Every chain x(i+1) = widening(x(i), x(i) join y(i)) of polyhedra is eventually stationary.",
     ["histories"], "for every infinite sequence of polyhedra", "A limit property of infinite sequences.",
     ["newpolka/pk_widening.c", "taylor1plus"], [("standard widening", "newpolka/pk_widening.c")])
prop("P44", "Hash is compatible with equality",
     "Two data that compare equal (as sets for domain values) have the same hash.",
     ["inputs"], "for all pairs of values", "Quantifies over semantic equality of values.",
     ["apron/ap_environment.c", "apron/ap_texpr0.c", "octagons/oct_representation.c"], [("*_hash", "several")])
prop("P45", "Domains agree with one another on common constraints",
     "Converting a value to constraints, generators or a box and building it again in the same or a more precise domain gives a value that contains the original.",
     ["inputs"], "for every value and pair of domains", "Numeric inclusion over all values.",
     ["apron/ap_abstract0.c", "newpolka", "octagons", "ppl"], [("to_lincons_array / of_lincons_array", "all domains")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
