#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: a property is claimed when props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("solver-based checking of the real code: /repo's Python functions are executed symbolically (values, arrays and rounding as z3 terms), "
        "every path within the bounds is explored and each assertion is discharged by z3; counterexamples are replayed on PyPy/numpy before they are reported")


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "observe_at": list(observe), "hook_needed": None}, "_note": note}


H, A, C, X, J, I, B, V, E = ("histbook/hist.py", "histbook/axis.py", "histbook/calc/__init__.py", "histbook/expr.py", "histbook/proj.py", "histbook/instr.py",
                             "histbook/book.py", "histbook/vega.py", "histbook/export.py")
F = "histbook/fill.py"

PROPS = [
    P("C01", "A fixed axis counts every value in exactly the bin that contains it",
      "Filling a histogram that has a bin, split, intbin or cut axis adds each entry to exactly the one bin whose published interval (or integer, or truth value) contains it, respecting which end of the interval is closed. "
      "Values outside the range, infinities and NaN go to the underflow, overflow and NaN bins, and are counted nowhere when that bin is switched off. "
      "This holds for every floating-point and integer input, however large, and for every combination of switched-on flow bins.",
      ["inputs", "configurations"], "every value (grid, integers up to 2**63, huge doubles, NaN, infinities) x every axis kind x every combination of flow and closure flags",
      "the tests fill a few hand-picked values into a few axes; edge values, switched-off flows and out-of-range magnitudes are sampled thinly or not at all",
      [A, C, H, F], [("index computation", C), ("interval publication: bin/split/intbin/cut keys()", A), ("fillblock", H)],
      [("content", "array of sums, last dimension holds the columns", H)], ["Hist.fill", "axis.keys()", "Hist.table()"]),
    P("C02", "Sparse axes hold exactly the categories and bins seen, counted right",
      "A groupby axis has one entry per distinct category filled, and a groupbin axis one entry per bin of width w and origin o that received data, published as the interval [k, k+w) (or (k, k+w]), with NaN in its own bin when that is switched on. "
      "The count of each is the number of entries in it, no entry is lost or counted twice, and this does not depend on how the data are spread over successive fills.",
      ["inputs", "histories", "configurations"], "every assignment of 1 to 3 entries (float, int, bool, string categories; float, int, NaN, infinite groupbin values), spread over one or two fills",
      "tests fill one fixed data set per axis kind", [A, C, H], [("groupby/groupbin calculation", C), ("filldict", H), ("keys()/items() publication", A)],
      [("content", "dict keyed by category / bin low edge", H)], ["Hist.fill", "axis.keys(content)", "Hist.groupkeys"]),
    P("C03", "Bin contents are exact weighted sums of the entries in the bin",
      "After filling, each bin holds the sum of weights, the sum of squared weights and, for each profile axis, the weighted sum of the profiled value and of its square over exactly the entries that fall in that bin. "
      "An entry rejected by the filter or whose weight is NaN contributes nothing, whatever combination of axes, profiles, weight, filter and switched-off flow bins the histogram has. "
      "The element type of the data (narrow integers, booleans) never changes these sums.",
      ["inputs", "configurations", "histories"], "every value and weight of 1 to 3 entries x combinations of 0-3 axes, 0-2 profiles, six weight forms, filters, one or two fills",
      "tests compare a few fixed data sets; combinations such as two profiles on an axis with switched-off flows and a filter are not covered",
      [H, F, C, I], [("_postfill / fillblock / filldict", H), ("weight and filter assembly in Hist.__init__", H), ("instruction stream", I)],
      [("content columns", "sumwx, sumwx2 per profile, then sumw, sumw2", H)], ["Hist.fill", "Hist.table()"]),
    P("C04", "Filling is additive: chunking, order and calling style do not matter",
      "Filling a data set in one call, in any split into consecutive chunks (including empty ones), or in any order of its entries gives the same contents. "
      "The same holds whether fields are passed as a dict, as keyword arguments, mixed, as lists, as arrays, as a constant that is broadcast, or to the constructor, and whether or not unused fields are present.",
      ["inputs", "histories", "configurations"], "every data set of up to 3 entries x every split point x permutations x calling styles x histogram configurations",
      "tests mostly fill once with one array", [H, F, I], [("fill / _prefill / _postfill", H), ("_fill: parameters, broadcasting, length", F)],
      [], ["Hist.fill", "Book.fill"]),
    P("C05", "Adding and scaling histograms and books is arithmetic on their contents",
      "The sum of two histograms with the same axes has in every bin and column the sum of the two, so it equals one histogram filled with both data sets; addition is commutative and associative, an unfilled histogram is neutral, and += agrees with +. "
      "Multiplying by a number multiplies every column of every bin (so 2*h equals h+h), *= agrees with *, and an unfilled histogram stays unfilled. "
      "A book adds and scales each of its histograms that way, and an operation that is not defined raises an error rather than giving a wrong result.",
      ["inputs", "configurations", "histories"], "every content of two or three histograms (dense, sparse with overlapping or disjoint keys, unfilled, weighted, profiled) and every factor in the bounds",
      "tests add one or two fixed histograms", [H, B], [("Hist.__add__/__iadd__/__mul__/__imul__", H), ("Book.__add__/__iadd__/__mul__/__imul__", B)], [], ["+", "+=", "*", "*="]),
    P("C06", "Derived histograms never share state with the histogram they came from",
      "copying, copy-on-fill, adding, scaling, selecting, projecting, dropping, rebinning, grouping and reading out a histogram leave the original exactly as it was: contents, axes, attachments and the result of later fills. "
      "Filling, adding to, scaling or attaching to the derived histogram afterwards never changes the original, nor the other way round.",
      ["histories", "inputs", "configurations"], "every operation x every mutation of either side afterwards x symbolic contents",
      "tests check results of operations, not that the operands survive and stay independent", [H, J, B], [("copy/copyonfill/_copycontent", H), ("project/drop/select/rebin", J), ("__add__/group", H)],
      [("content", "arrays and dicts that may be shared", H), ("axis positions", "shape and column indexes stored on axis objects", A)], ["Hist.copy", "Hist.copyonfill", "Hist.select", "Hist.project", "Hist.drop", "Hist.rebin", "Hist.group"]),
    P("C07", "Selecting bins equals filtering the data before filling",
      "Selecting from a filled histogram with a comparison (or and/or/not of comparisons) at bin edges gives the same bins, counts and profiles as filling a histogram with only the entries that satisfy the selection. "
      "A comparison that would cut through a bin is refused with an error and is never silently rounded to an edge.",
      ["inputs", "programs", "configurations"], "every data value x axis kinds and closures x comparison operators x cut positions on and off the edges, on either side of the comparison",
      "tests select on a few histograms without comparing with a filtered fill", [J, A], [("select", J), ("_select of each axis", A)], [], ["Hist.select"]),
    P("C08", "Projecting or dropping axes equals filling the smaller histogram directly",
      "Projecting a histogram onto a subset of its axes, or dropping axes, gives exactly the histogram obtained by filling the same data into a histogram declared with only the remaining axes. "
      "All columns are preserved: counts, squared weights and every remaining profile, for dense and sparse axes alike.",
      ["inputs", "configurations"], "every content x every subset of axes x profiles and weights", "tests project one or two small histograms", [J, H], [("project", J), ("drop", J)], [], ["Hist.project", "Hist.drop"]),
    P("C09", "Rebinning equals filling with the coarser binning",
      "Merging bins of a bin, split, intbin or groupbin axis (by new edges or by a factor) gives the histogram that direct filling with the coarser axis gives, with all columns preserved, flow bins intact, and bins that fall outside the new range moved to underflow or overflow. "
      "New edges that do not coincide with old edges are refused.",
      ["inputs", "configurations"], "every content x axis kinds x edges and factors", "tests rebin one histogram", [J, A], [("rebin/rebinby", J), ("_rebinsplit/_rebinfactor of each axis", A)], [], ["Hist.rebin", "Hist.rebinby"]),
    P("C10", "An expression evaluates to the value its text has in Python",
      "An axis, weight or filter expression made of arithmetic, comparisons, logic, calls and constants is evaluated, after all algebraic simplification, common-subexpression sharing and compilation, to the value that the text denotes in Python (in exact arithmetic) for every finite input where it is defined. "
      "Printing a parsed expression gives text with the same value. Anything that cannot be represented is refused with an error when the expression is parsed.",
      ["programs", "inputs"], "expression shapes up to a bounded depth with symbolic operands (exact real arithmetic)", "tests parse and print a list of expressions; values for all operands are never compared",
      [X, I, C], [("Expr.parse and canonicalisation", X), ("CallGraph and instructions", I), ("calculate", C)], [], ["axis expressions", "weight", "filter", "Expr.parse", "str(Expr)"]),
    P("C11", "Axes are found by any algebraically equal expression, and only by those",
      "Looking up an axis (or defining, selecting, projecting by expression) accepts any spelling that the simplifier normalises to the same expression, such as reordered sums and products, and never accepts an expression with a different value. "
      "Equal expressions hash equal and compare consistently.",
      ["programs", "inputs"], "pairs of expressions with symbolic operands", "tests compare a fixed list of pairs", [X, J], [("canonical form and equality", X), ("axis lookup", J)], [], ["Hist.axis[...]", "Hist.select", "Hist.project"]),
    P("C12", "Filling a book equals filling each of its histograms alone",
      "Filling a collection of histograms, however nested, in one call leaves every histogram exactly as if it had been filled alone with the same data, although shared sub-expressions are computed once. "
      "The required fields are exactly those some histogram needs, and the result does not depend on iteration order.",
      ["inputs", "schedules", "configurations"], "books of 1-4 histograms with shared sub-expressions x data x set-iteration orders", "tests fill two or three books with fixed data and one hash order",
      [B, I, F], [("Book.fill", B), ("call graph and scheduling with reference-counted deletes", I)], [], ["Book.fill", "Book.fields"]),
    P("C13", "Tables report count, error and profile statistics of the right bins",
      "A table row for each bin reports the count, its statistical error, the effective count and the profile mean and error computed from that bin's sums, with one field per column asked for, in axis order. "
      "The record and plain forms describe the same numbers, and a normalised table holds the counts per bin width scaled so that the finite bins of all categories together sum to one.",
      ["inputs", "configurations"], "every content x weights x profiles x table options", "tests compare a few printed numbers", [E, J, H], [("table", J)], [], ["Hist.table"]),
    P("C14", "Fractions compare passing with all entries bin by bin",
      "The fraction of a cut in a bin is the passing weight divided by the total weight in that bin, with the error of the method asked for, for weighted and unweighted, dense and sparse histograms.",
      ["inputs", "configurations"], "every content x error methods", "tests use one data set", [J], [("fraction", J)], [], ["Hist.fraction"]),
    P("C15", "Serialisation round trips preserve histograms and books",
      "Writing a histogram or book to JSON (as an object or as text) or pickling it and reading it back gives an equal object: same axes with all options, weight, filter, definitions, attachments and contents, that fills the same way afterwards.",
      ["inputs", "configurations", "histories"], "every content and attachment x axis kinds and options x weight/filter/definitions", "tests round-trip a few objects", [H, A, B], [("tojson/fromjson", H), ("_pack/_unpack, __getstate__/__setstate__", A)], [], ["Hist.tojson", "Hist.fromjson", "Book.tojson", "pickle"]),
    P("C16", "A book behaves as a nested ordered mapping of paths to histograms",
      "Assigning, reading, deleting and iterating over paths and wildcard patterns in a book follows mapping semantics: what was assigned under a path is what is read from it, only matching names are deleted, and the listings agree with each other and keep insertion order.",
      ["histories", "inputs"], "sequences of assignments and deletions over symbolic choices of paths", "tests use fixed sequences", [B], [("__getitem__/__setitem__/__delitem__ path parsing", B)], [], ["Book[...]", "Book.items", "Book.keys"]),
    P("C17", "Grouping histograms keeps each one's contents under its own key",
      "Combining histograms or books into groups adds one categorical axis whose slices are exactly the contents of the originals, in all columns; adding further histograms to a group adds their contents to the slice of that name.",
      ["inputs", "configurations"], "every content of 1-3 histograms x names", "tests group one pair", [H, B], [("Hist.group/togroup", H), ("Book.group", B)], [], ["Hist.group", "Hist.togroup", "Book.group"]),
    P("C18", "Plots show the numbers of the table",
      "The data embedded in a plot specification are exactly the numbers of the corresponding table: every bin and category appears once per overlaid histogram with its bin edges, count and error, whatever overlays, stacks, facets and combinations were requested.",
      ["inputs", "configurations"], "every content x plot chains", "tests only exercise a few chains without comparing data", [V], [("_data/_domain/_vegalite", V)], [], ["Hist.vegalite()"]),
    P("C19", "Equality, hashing and ordering are consistent",
      "For axes, intervals, expressions, histograms and books: equal objects hash equal, equality is an equivalence that distinguishes any difference in options or contents, and ordering is a strict total order that agrees with equality so that sorting gives the same result from any starting order.",
      ["inputs", "configurations"], "pairs and triples of objects with symbolic parameters", "tests compare a handful of pairs", [A, X, H], [("__eq__/__hash__/__lt__", A)], [], ["==", "hash", "sorted"]),
    P("C20", "A refused fill changes nothing",
      "A fill that raises an error (missing field, lengths that differ) leaves the contents of the histogram or of every histogram in the book as they were, and a later correct fill counts as if the refused one had not happened. "
      "The advertised field names are exactly those that must be supplied (named constants such as pi may be left out); other fields are ignored, and numbers stand for as many equal values as there are rows.",
      ["fault_sequences", "inputs", "histories"], "every choice of missing or mismatched field x contents x later fills", "tests check that the error is raised at most", [F, H, B], [("_fill validation before _postfill", F)], [], ["Hist.fill", "Book.fill", "Hist.fields"]),
    P("C21", "Exports carry the numbers and labels of the table",
      "Exporting a histogram to a Pandas data frame or to ROOT gives, for every bin and category, the row or bin labelled with that bin's interval, cut or category and holding the table's count, error and profile values; nothing is lost, repeated or moved to another bin, and the histogram is unchanged.",
      ["inputs", "configurations"], "every content x axis kinds and options x weights and profiles", "neither pandas nor ROOT is in the test environment", ["histbook/export.py"], [("pandas, root", "histbook/export.py")], [], ["Hist.pandas", "Hist.root"]),
]

NA = [
    P("N01", "Filling from a Spark DataFrame equals filling from arrays",
      "Filling a histogram or book from a distributed Spark DataFrame gives the same contents as filling it from the same rows as arrays, for every partitioning of the rows.",
      ["inputs", "schedules", "configurations"], "every partitioning of the rows", "no Spark in the test environment", ["histbook/calc/spark.py", H], [("fillspark", "histbook/calc/spark.py")]),
    P("N02", "Transcendental special functions are numerically accurate",
      "Expressions calling exponentials, logarithms, trigonometric, error and gamma functions give the mathematically correct value to floating-point accuracy.",
      ["inputs"], "every finite argument", "tests evaluate a few points", [C], [("calculate", C)]),
]
NAREASON = {
    "N01": "the code builds Java/py4j expressions for a Spark cluster: neither pyspark nor a JVM Spark is installed, and the semantics that matter live in Spark, outside the code that can be encoded",
    "N02": "the values come from compiled numpy/libm routines and polynomial approximations over doubles; nonlinear floating-point bounds on them are out of reach of the SMT encoding (they are uninterpreted functions in C10)",
}

LEVEL_NOTE = "bounded symbolic execution of the Python source: the solver's verdict covers every value within the bounds listed in the evidence; numpy is represented by a symbolic stand-in checked against the real one by replaying path witnesses"


def main():
    claimed = [p for p in PROPS if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in claimed + NA:
            f.write(json.dumps(dict((k, v) for k, v in p.items() if not k.startswith("_")), sort_keys=False) + "\n")
    m = {"version": 1, "setup_cmd": "./check.sh --selftest", "checks": [], "not_applicable": [{"property": p["id"], "reason": NAREASON[p["id"]]} for p in NA],
         "notes": "Every check loads /repo's current source afresh; nothing is built or cached. thorough runs use larger bounds of the same harness."}
    for p in claimed:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": p["_note"] or LEVEL_NOTE})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
