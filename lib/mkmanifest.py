"""Writes MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
T = {  # property: (technique, level, note)
 "C02": ("abstract interpretation of the parser's typed AST with forced JSON-read outcomes (no execution, no solver)", "other", "every table row x {absent, wrong type}; sound w.r.t. the interpreter's models of simdjson and the standard library"),
 "C03": ("value-flow abstract interpretation of the parser's typed AST against a reviewed property table", "other", "every table row: value reaches its member and no other, absent value leaves the specified default"),
}
exec(open(os.path.join(ROOT, "lib", "techniques.py")).read()) if os.path.exists(os.path.join(ROOT, "lib", "techniques.py")) else None
NA = {
 "C20": "agreement of the accessor tools is equivalence of index arithmetic over runtime values with non-linear terms (element index times stride, sparse lookups) across loops instantiated by the user's types; the static clauses (traits, conversion tables, sizes) are claimed as C21",
 "C27": "quantifies over floating-point values at run time: the text written by to_string_fp and the double read back; no static argument in reach bounds the digits std::to_chars or the fallback produce",
 "C28": "algebraic identities over floating-point matrices (inverse, decompose, compose): a question about rounding and real arithmetic on runtime values, not about program structure",
 "C29": "equality of the results of hand-written SIMD and portable code for all inputs needs semantics of vector intrinsics over runtime bytes (equivalence proof or execution), outside this family",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in T and os.path.exists(os.path.join(ROOT, "checks", p + ".py")):
        t, lv, note = T[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p, "thorough_cmd": "python3 checks/%s.py --thorough" % p, "technique": t, "level": lv, "level_note": note})
    else: na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash extractor/build.sh", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
