#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the registered checks and the notes below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["x"]; sys.path.insert(0, H)
import check
check.load_checks()
EX = "stateless model checking: exhaustive enumeration of bounded inputs and call sequences on the real code, each execution compared with a reference model"
T = dict(
  C15="stateless model checking: all operation sequences to a depth, on one or two objects, against a reference transition system of fresh objects",
  C31="stateless model checking: all sequences of writes, copies, assignments and sweeps to a depth over two objects of every class, against a model of two independent values",
  C32="fault-injection model checking: every allocation of every operation made to fail in turn (alone, or with all later ones) on the real code, and the operation repeated, against the execution without a failure",
  C25="stateless model checking of the instrumented implementation (ASan, UBSan, bounds assertions, allocation accounting, heap/stack poison comparison) over enumerated call sequences",
  C26="stateless model checking of the C++ code embedded in the R interface, built against a mock of Rcpp/Armadillo, compared with the library",
  C28="controlled-scheduler model checking: all interleavings of two computations up to a preemption bound on the real code",
)
NOTE = "Every execution within the bounds listed per space in the evidence file is run on the real library, none is sampled; beyond the bounds nothing is claimed. Trusted: the reference model mc/ref.h, the compiler, and its long double arithmetic (comparisons use stated tolerances where rounding may differ)."
NA = {"C29": "The trace and plotting helpers are pure R code (pjdump parsing with R data frames, ggplot2); no R interpreter, and none of the R packages, is installed here, so they cannot be executed under a model checker, and a model of them could not be bound to the code by conformance replay."}
def main():
    props = [json.loads(l) for l in open(H + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.CHECKS:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=T.get(i, EX), level="model_checking", level_note=NOTE))
        else: na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
    m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\" && g++ --version > /dev/null", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the harnesses link the unmodified sources. Every check rebuilds the library from /repo's working tree in a scratch folder under /verif/build, which it removes.")
    json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
