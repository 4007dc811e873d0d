"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "bounded explicit-state exploration of the real code against a reference model"
CHECKS = {
    "C01": ("exhaustive enumeration of bounded values x settings, round trip executed on the real code",
            "Every value of the listed families (all trees up to a node bound, all short strings over the syntax alphabet, every Unicode scalar in every position, layouts, sweeps of widths and depths) is encoded and strictly decoded by the real code. Values outside the bounds are not covered."),
    "C02": ("exhaustive enumeration of bounded values x settings, every encoding compared with a reference encoder",
            "The reference encoder is written from the format description without code from toon_rust; each explored value is one validated trace. Trusts the reference model."),
    "C03": ("exhaustive enumeration of bounded texts, real strict decoder against a reference decoder model",
            "All texts over several line and character alphabets up to the stated depth, and every prefix and single edit of encoded documents. Trusts the reference model."),
    "C04": ("exhaustive enumeration of bounded texts, real lenient decoder against a reference decoder model and against strict decoding",
            "Same text families as C03 in lenient mode, plus the strict-implies-lenient agreement on the real code. Trusts the reference model."),
}
EXTRA = os.path.join(ROOT, "mc", "checks.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        CHECKS[k] = tuple(v)
NA = {}
p = os.path.join(ROOT, "mc", "na.json")
if os.path.exists(p):
    NA = json.load(open(p))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": []}
for i in props:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": c[0], "level": c[2] if len(c) > 2 else "model_checking", "level_note": c[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
