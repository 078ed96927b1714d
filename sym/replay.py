"""Replay solver models against the real code.

  /opt/venv-pypy/bin/python -m sym.replay FILE.json      (one case: prints REPRODUCED / NOT-REPRODUCED)
  /opt/venv-pypy/bin/python -m sym.replay --batch < cases.json > results.json
"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HISTBOOK_REPO", "/repo")


def run_case(case):
    from sym import conc
    import numpy
    import histbook
    mod = importlib.import_module("props." + case["property"].lower())
    ctx = conc.ConcCtx(histbook, numpy, case["config"], case["model"])
    exc = None
    with numpy.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.run(ctx, case["config"])
        except conc.Skip:
            return {"status": "skipped", "failures": ctx.failures, "checks": ctx.checks}
        except Exception as err:
            exc = "%s: %s" % (type(err).__name__, err)
            tb = traceback.format_exc()
            ctx.failures.append("unexpected exception " + exc)
        finally:
            ctx.done()
    out = {"status": "fail" if ctx.failures else "ok", "failures": ctx.failures, "checks": ctx.checks}
    if exc:
        out["traceback"] = tb
    return out


def main(argv):
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if argv[:1] == ["--batch"]:
        cases = json.load(sys.stdin)
        out = []
        for c in cases:
            out.append(run_case(c))
        sys.stdout.write(json.dumps(out))
        return 0
    case = json.load(open(argv[0]))
    r = run_case(case)
    print(json.dumps(case["model"], sort_keys=True))
    for f in r["failures"]:
        print("FAILED:", f)
    if r.get("traceback"):
        print(r["traceback"])
    print("REPRODUCED" if r["status"] == "fail" else "NOT-REPRODUCED (%s)" % r["status"])
    return 1 if r["status"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
