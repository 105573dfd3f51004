#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the META records of the specifications."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3  # noqa: F401
except ImportError:
    os.execv(VT, [VT] + sys.argv)

TECH = "symbolic execution of the compiled LLVM IR (concolic path enumeration), verification conditions discharged by z3"
NOTE = ("Bounded: holds for all real values of the symbolic inputs within the stated ranges, on every path listed in the evidence; floating-point rounding is outside (arithmetic is over the reals with a stated relative tolerance). "
        "Trusted: clang 18, the instrumentation pass (validated per path against a native build), the polynomial normal form, z3.")


def main():
    props, checks, na = [], [], []
    for f in sorted(glob.glob(os.path.join(HERE, "specs", "[A-Z][0-9][0-9].py"))):
        pid = os.path.basename(f)[:-3]
        m = importlib.import_module("checks.specs." + pid)
        M = m.META
        assert len(M["title"]) <= 80, (pid, len(M["title"]))
        props.append(dict(id=pid, title=M["title"], statement=M["statement"], quantifier=dict(over=M["over"], text=M["qtext"]), why_tests_cant=M["why"],
                          anchors=dict(files=M["files"], mechanism=[dict(name=a, where=b) for a, b in M["mech"]], observe_at=M["observe"], hook_needed=None)))
        if "na" in M:
            na.append(dict(property=pid, reason=M["na"]))
            continue
        checks.append(dict(property=pid, quick_cmd="python3 checks/run.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + pid,
                           evidence_file="evidence/%s.json" % pid, technique=M.get("technique", TECH), level="model_checking", level_note=M.get("note", "") + NOTE))
    for n in NA:
        props.append(n["prop"])
        na.append(dict(property=n["prop"]["id"], reason=n["reason"]))
    props.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props: f.write(json.dumps(p) + "\n")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na,
                       notes="No hooks in /repo. Repairs of genuine defects are fix: commits listed in known_findings.json."), f, indent=1)
    try:
        import jsonschema
        jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
        for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    except (ImportError, FileNotFoundError):
        pass
    print(len(props), "properties", len(checks), "checks", len(na), "not applicable")


NA = []
if __name__ == "__main__":
    main()
