NUM = "it quantifies over the numeric content of abstract values; no sound static argument in reach bounds it on this code"
NA = {
    "P40": "soundness of each numeric algorithm against the concrete semantics: " + NUM,
    "P41": "equality of fixpoints of matrix closure and double description: " + NUM,
    "P42": "enclosure of real arithmetic with rounding by interval linear forms: " + NUM,
    "P43": "a limit property of infinite sequences of polyhedra; the constraint-count argument depends on run-time values",
    "P44": "hash compatibility with semantic equality of values: " + NUM,
    "P45": "numeric inclusion between two domains' algorithms: " + NUM,
    "P07": "ownership of matrices shared between argument, caches and result depends on heap aliasing under run-time conditions, which no static argument in reach bounds; the dimension part is decided by P22 and the release part by P06",
    "P11": "which components count depends on discriminants, caches and unused tails of each type; a table of them would restate the functions and alarm on every rewrite, so no sound general rule is in reach",
    "P18": "the formats are defined only by pairs of functions with data-dependent loops and cursor arithmetic through callbacks; matching them is program equivalence, out of reach of this family",
    "P19": "use of a converted form is guarded by correlated run-time tests (pk->exn, matrices being NULL, algorithm options) across helpers; without solving paths every operation would be flagged",
}
