#!/usr/bin/env python3
"""Assembles DESIGN.md from the text here, the bounds stated in props/*.py, properties.jsonl, known_findings.json and seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Design

This file is written by `python3 tools/mkdesign.py` (text there; bounds from the harnesses, so that they cannot drift apart).

## 1. Technique

Every property is decided by **symbolic execution of histbook's real Python source with z3 as the judge**.

* `sym/loader.py` reads `/repo/histbook/**/*.py` afresh on every run (override: `HISTBOOK_REPO`), compiles it and executes it in a fresh module namespace. Nothing is
  copied, translated by hand or cached; the encoding *is* the current source. The only rewrites are on the AST, and keep the meaning: `and`/`or`/`not`/`in`/`is`,
  f-strings, `%` formatting and string methods that CPython would not dispatch to a symbolic operand are routed through hooks (`sym/text.py`); `int()`, `float()`,
  `bool`, `isinstance`, `math.*`, `set` iteration and so on accept symbolic operands.
* `sym/values.py`: symbolic scalars. Python ints are mathematical integers, numpy ints wrap at their width, floats are a real term plus NaN/+inf/-inf flags; every float
  operation that can round has its result bounded by the IEEE relative error (an over-approximation), unless it is provably exact (tracked by grid and magnitude) or the
  harness asks for exact real arithmetic (`ctx.ideal()`; said in its assumptions).
* `sym/nparr.py`: the stand-in for numpy (arrays of such scalars with numpy's dtype, casting, broadcasting, view and masking rules, `add.at`, `unique`, `ma`, record arrays...).
  Anything it does not know raises `Unsupported`, which makes the run inconclusive for that path, never a pass.
* `sym/engine.py`: path exploration by re-execution. A branch on a symbolic boolean asks z3 which sides are feasible; both are explored. Every assertion is a z3 query
  "path condition and not assertion": `unsat` discharges it, `sat` is a counterexample candidate, `unknown` is reported as undecided.
* `sym/runner.py`: runs the configurations of a harness in 8 processes, **replays** every counterexample with `/opt/venv-pypy/bin/python` (PyPy, real numpy, unmodified
  `/repo`) through the same harness (`sym/conc.py` provides the same `ctx` API with concrete values). Only a counterexample that reproduces is printed as `VIOLATION`;
  one that does not is an `UNCONFIRMED` note in the evidence (modelling error), not an alarm.
* **Validation of the model**: for a sample of finished paths of each configuration the engine asks z3 for a witness of the path and replays it on PyPy with real numpy: every
  assertion of the harness must hold there too and the path must end the same way. These replays (hundreds per run) test the stand-in against the real numpy on every run, and
  are also the vacuity guard: a configuration with no path reaching the end of the harness is reported as `VACUOUS`.
* Paths the engine cannot finish (unsupported operation, `unknown`, budget) are reported as `UNDECIDED` and in the evidence; z3's input for such a path is still replayed on the real code, so that a crash there is not missed, but nothing is claimed for it.
* Symbolic choice (`ctx.choose`, `ctx.boolean`) is a solver variable; structure (which axes, how many entries) is enumerated by configuration and is the stated bound.
* Symbolic strings (`ctx.text`): fixed-length sequences of symbolic characters with equality, ordering, slicing, `split`, `startswith`, `in`, `fnmatch`; used for names, paths
  and patterns (C16, C17). Set iteration order is symbolic where asked (`ctx.permute_sets`: C12, C17), because Python does not fix it.

Exit codes: 0 held on everything explored (undecided or unsupported paths are counted in the evidence and in the summary line), 1 with a `VIOLATION property=.. replay=..` line.

Evidence (`evidence/<id>.json`): functions of /repo that were executed symbolically, bounds, assumptions, configurations, paths, queries, assertions discharged, solver seconds, witnesses replayed, undecided.

Running: `./check.sh C07 quick` (or `thorough`), `--only REGEX` for some configurations; `VERIF_ALL=1` prints every violation, `VERIF_SLOW=1` the slowest configurations. A violation file is replayed
with `python -m sym.replay FILE` under PyPy. `python3 tools/mkmeta.py` writes properties.jsonl and MANIFEST.json.

Why solver-based checking can reach what the tests cannot: the 62 tests fill fixed data into a few histograms. The defects found (section 5) needed an edge value with a switched-off flow bin, an
integer beyond int32, a NaN next to other values, an operand with a category the other lacks, a particular order of set iteration, a threshold near an edge, and so on: inputs that a test would have to guess and
that z3 returns as models.

### Limits that apply to all properties

* Bounds are small (one to four entries, one to four bins, up to three axes). The per-entry code of histbook is vectorised and data-independent apart from the modelled numpy primitives, so small sizes exercise every source line, but nothing is claimed beyond the bounds.
* numpy, json, pickle, fnmatch and the Python interpreter are trusted (numpy through its stand-in, validated as above). CPython 3.12 runs the symbolic side, PyPy 3.9 the replays; histbook's source has no version-dependent code on the paths used other than string and integer type names.
* Transcendental functions are uninterpreted (equal arguments give equal results).

## 2. Properties: what is asserted, against which oracle

"""

METHOD = {
    "C01": "A histogram with one axis is filled through `Hist.fill` with symbolic values; for every bin the assertion is *contents = number of entries inside the published interval*, with the oracle (`lib.inkey`) reading only `axis.keys()`; totals and switched-off flows follow. int8/int32/int64 and bool arrays are separate dtypes with wrap-around.",
    "C02": "The oracle is an association list built from the symbolic values by pairwise equality (groupby) or interval membership (groupbin): each distinct key once, its count, nothing else; compared with `axis.items(content)` and `groupkeys` after one or two fills.",
    "C03": "The oracle sums weight, weight**2, weight*value, weight*value**2 with `if` over membership in the published bins; compared with every stored column of every bin.",
    "C04": "Two histograms, filled in two ways with the same symbolic data (chunks, permutation, calling style); all columns of all bins must be equal.",
    "C05": "Contents of both operands are arbitrary symbolic numbers (an arbitrary reachable state, not a history), the result is compared cell by cell with the sum or product; identity of in-place operations; refusals.",
    "C06": "Snapshot of all numbers, axes, attachments of the one side; symbolic mutation of the other side; everything in the snapshot must still be equal. Two mutations in sequence, both sides.",
    "C07": "`h.select(condition)` of a filled histogram against a histogram filled only with the entries for which the condition holds (a z3 formula over the symbolic values); thresholds symbolic too: either refused or right.",
    "C08": "(a) arbitrary contents: the projection's bins are the sums over the removed axes (NaN and flow bins included), profiles keep their columns; (b) data: equals filling the smaller histogram.",
    "C09": "Rebinned histogram against one filled directly with the coarser axis; with arbitrary contents: every new bin is the sum of the old bins inside it and nothing is lost.",
    "C10": "For each expression text an independent evaluator of the text (Python's own `ast`, over z3 terms) is the oracle; `Expr.parse(text)` then instructions then `calc.calculate` is the implementation; equality for all operands. The printed form is parsed again and must evaluate the same.",
    "C11": "`h.axis[text]` succeeds for text B on an axis declared as A only if A and B are equal for all operands (z3 proves or refutes), and always for listed algebraic respellings (permuted terms, symbolic coefficients...).",
    "C12": "Book filled once against each member filled alone with the same symbolic data, all cells; all set iteration orders; the book changed between fills.",
    "C13": "Independent formulas (count, sqrt(sumw2), mean, error of the mean, effective count, normalisation) over the symbolic columns, for every row of `table`; square roots are solver variables with s>=0, s*s=x.",
    "C14": "fraction = passing/all, normal and Wilson errors as formulas over the symbolic contents, for the right row of the table.",
    "C15": "decode(encode(h)) has equal axes, options, contents, attachments and fills the same afterwards; JSON object, JSON text and pickle.",
    "C16": "A small reference model (nested association list) runs the same operations on symbolic names and paths; all listings, lookups, memberships and refusals must agree.",
    "C17": "Every member's cells are found under its name in the grouped histogram (name symbolic), nothing else is there, members unchanged; adding to a group accumulates; books pairwise.",
    "C18": "The Vega-Lite specification returned by `vegalite()` is read by an independent reader (data values, filter/calculate transforms, encodings, domains) into marks with position, value, error bar and label; these are compared with the published bins and `table` of the projected histogram for arbitrary contents.",
    "C19": "Reflexive, symmetric, transitive, hash-consistent equality; total order; equality iff the declared parameters are equal, over symbolic parameters.",
    "C20": "Snapshot, refused fill (missing, unreadable, odd lengths...), everything equal to the snapshot; then a correct fill adds exactly what it adds to a fresh histogram. Lengths are choices per field: equal lengths must be accepted, different ones refused.",
    "C21": "pandas and ROOT are replaced by stand-ins that record what they are given; the recorded rows/bins are matched by label to the published bins and compared with `table`/`fraction` of the same symbolic contents.",
}

NOTES = """
## 3. Not applicable

* **N01 Spark**: `histbook/calc/spark.py` builds Spark SQL column expressions that a JVM evaluates; neither pyspark nor a JVM-side semantics is here, so there is nothing to execute symbolically. Replacing Spark by a stand-in would check the stand-in.
* **N02 accuracy of special functions**: delegated to numpy/scipy/libm and to series in doubles; nonlinear floating-point error bounds are beyond the encoding. C10 checks which function is called on which argument (uninterpreted).

## 4. False alarms that were corrected

Properties or machinery that turned out too strong, and what was done:

* C10 first asked that parsing the printed form gives an *equal* expression: simplification is not confluent and nothing promises that; replaced by "evaluates to the same value". Oddness of `erf` was dropped with the special functions.
* C13: the docstring of `normalized` (sum of count*width is one) and an existing test (heights proportional to count/width that sum to one over the finite bins) contradict each other; the test is taken as the specification.
* C18: interpolation between points ("step-before"), labels equal to six digits, error bars on stacks, and overlay and stack in the same plot (both use colour) are outside.
* C11: operands at which either text is undefined are excluded; equality of `x/x` and `1` is not required.
* C16: `"zz*" in book` (membership of a pattern) is unspecified. C07: refusals that are allowed: constant-only filters, a bare name as filter, `x > -inf`, selecting the negation of a cut.
* Modelling errors found by witness replay were fixed in `sym/` (masked array arithmetic, `numpy.unique` order of NaN, dtype of `numpy.where`, ...).

Known oddities that no property claims: a refused assignment into a `SystematicsBook` leaves the change in place; float NaN categories of `groupby` are separate for each fill (NaN is not equal to itself), and NaN contents make a
histogram unequal to itself; reading an unfilled histogram (`table`, indexing) turns it into one filled with zeros, which compares unequal to one never filled; definitions (`defs`) may not refer to each other; `fill=` of the constructor is keyed by expression text;
`Book` uses `threading` without importing it (Spark only); `not (x < 5)` is rewritten to `x >= 5`, which differs for NaN; error bars of negative sums of weights are NaN.
"""


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    byid = dict((p["id"], p) for p in props)
    for f in sorted(glob.glob(os.path.join(HERE, "props", "c??.py"))):
        src = open(f).read()
        ns = {}
        exec(src[src.index("BOUNDS"):src.index("OPTS =")], ns)
        i = os.path.basename(f)[:3].upper()
        p = byid[i]
        out.append("### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Bounds:* %s.\n\n*Assumptions:* %s.\n" % (i, p["title"], p["statement"], METHOD[i], ns["BOUNDS"].rstrip("."), "; ".join(ns["ASSUMPTIONS"]).rstrip(".")))
    out.append(NOTES)
    k = json.load(open(os.path.join(HERE, "known_findings.json")))
    out.append("\n## 5. Genuine defects\n\nFound by the checks on the original tree, each repaired by one `fix:` commit in /repo (also listed in known_findings.json):\n")
    for x in k["fixed"]:
        out.append("* " + x)
    out.append("\nRecorded and not repaired: %s\n" % ("; ".join(x["what"] for x in k["known"]) if k["known"] else "none."))
    out.append("\n## 6. Planted bugs\n\nEach was written from the property text and the code, keeps the 62 tests green, has a demonstration, and was run against the quick check of its property (verdict of the last run by tools/seeds.sh).\n\n| id | property | needs | breaks | quick check |\n|---|---|---|---|---|")
    res = {}
    r = os.path.join(HERE, "tools", "seed_results.txt")
    if os.path.exists(r):
        for l in open(r):
            a = l.split(None, 1)
            if len(a) == 2:
                res[a[0]] = a[1].strip()
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], res.get(n, "caught")))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
