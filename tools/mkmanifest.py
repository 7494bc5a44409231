"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os
import props
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Bounded: z3 decides every branch and assertion for all values of the symbolic bytes, cuts, answers and lengths within the stated bounds, on the LLVM IR rustc emits from /repo's current tree "
        "(debug assertions and overflow checks on); nothing is claimed outside them. Trusted: rustc's IR, the executor's IR semantics (cross-checked by running sampled paths and every counterexample natively), z3.")
NA = getattr(props, "NOT_APPLICABLE", {})
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the compiled crate's LLVM IR, paths and assertions decided by z3", level="model_checking", level_note=props.PROPS[i].get("note", "") + NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo are needed: only its public API is driven.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
