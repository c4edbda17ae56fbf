"""writes MANIFEST.json: one check per property that has a harness"""
import json, os, importlib, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "not applicable: pickle is C code beyond the reach of symbolic execution, and the codec is a one-line call to it, so there is no dustgoggles logic to encode beyond what C13 decides within its bounds (C01, C06, C07 and C10 assume pickle injective)",
 "N02": "not applicable: the behaviour lies in the interpreter's separate resource tracker process and in interpreter shutdown, for which no symbolic encoding is within reach (what dustgoggles itself tells the tracker is decided as C16)",
}
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(f"harness/{i}.py"):
        na.append({"property": i, "reason": "no check built yet"}); continue
    h = importlib.import_module("harness." + i)
    checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
        "technique": getattr(h, "TECHNIQUE", "symbolic execution of the real Python code on z3-backed proxies; every path's assertions decided by z3, counterexamples replayed on the real code"),
        "level": "model_checking",
        "level_note": f"all inputs within the bounds: {h.BOUNDS}. Outside: {h.OUTSIDE}."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
