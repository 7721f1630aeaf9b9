"""Generates MANIFEST.json: one check per property with a checks/pNN.py.

Run:  python3 tools/manifest.py
"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST = (
    " Trusted: z3, the interception layer in /verif/sym (validated on every run by "
    "replaying path witnesses against the unmodified code), CPython's compiler and "
    "library. Holds within the stated bounds only (see DESIGN.md and the evidence)."
)
NOT_APPLICABLE = {}


def main():
    checks = []
    na = []
    with open(os.path.join(HERE, "properties.jsonl")) as fp:
        props = [json.loads(ln) for ln in fp]
    for p in props:
        pid = p["id"]
        fn = os.path.join(HERE, "checks", f"{pid.lower()}.py")
        if pid in NOT_APPLICABLE or not os.path.exists(fn):
            na.append(
                {
                    "property": pid,
                    "reason": NOT_APPLICABLE.get(pid, "check not built yet"),
                }
            )
            continue
        with open(fn) as fp:
            doc = ast.get_docstring(ast.parse(fp.read()))
        note = doc.partition("\n\n")[2].replace("\n", " ").strip()
        assert note, pid
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} --tier quick",
                "thorough_cmd": f"./check {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "symbolic execution of the real Python source with z3 "
                "deciding every branch and assertion over all values within bounds; "
                "counterexamples replayed on the unmodified code",
                "level": "model_checking",
                "level_note": note + TRUST,
            }
        )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(
            {
                "version": 1,
                "setup_cmd": "python3-vt -c 'import z3' && chmod +x check",
                "checks": checks,
                "not_applicable": na,
            },
            fp,
            indent=1,
        )
        fp.write("\n")


main()
