#!/usr/bin/env python3
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
import checks
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
    "N01": "dice-runtime does not compile at this commit (265 errors against the vendored gc-arena), so there is no interpreter code to encode",
    "N02": "dice-runtime does not compile at this commit, so there is no collected heap to encode",
    "N03": "dice-runtime (the module loader) does not compile at this commit",
    "N04": "dice-runtime (call frames, native functions) does not compile at this commit",
    "N05": "dice and dice-cli depend on dice-runtime, which does not compile at this commit",
}
m = dict(version=1, setup_cmd="python3 check.py --build",
         hooks=dict(guard="cfg(verif)", enable="RUSTFLAGS='--cfg verif' when the checks build the harness crate against /repo's crates", source_commits=["51686e4"]),
         checks=[], not_applicable=[], notes="Every check builds the symbolic executor, the LLVM IR of the harness over /repo's current sources and a native replay binary; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                technique="symbolic execution of the compiled code's LLVM IR with an SMT solver (Z3), counterexamples replayed natively", level="model_checking", level_note=c["level_note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
