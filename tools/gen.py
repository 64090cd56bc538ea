#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), note=""):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))), note))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())
NA = []
exec(open(os.path.join(ROOT, "tools", "not_applicable.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        assert d["id"] in props.PROPS or d["id"] in [x[0] for x in NA], d["id"]
        f.write(json.dumps(d) + "\n")
for x in props.PROPS:
    assert x in [d["id"] for d, _ in P], x
ASSUME = ("Symbolic execution of rustc's optimised LLVM IR of the crates in /repo, regenerated on every run; every branch, "
          "memory access, arithmetic trap and assertion is decided by Z3 over all values of the symbolic inputs, within the "
          "sizes listed per case in the evidence file (partial cases say so). Trusted: the executor's IR semantics (checked by "
          "replaying solver witnesses natively on every run), Z3, rustc up to LLVM IR. Allocation never fails; one thread. ")
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=d["id"], quick_cmd=f"python3 check.py {d['id']} quick", thorough_cmd=f"python3 check.py {d['id']} thorough",
                 technique="bounded symbolic execution of the compiled LLVM IR with an SMT solver (own executor, Z3), native replay of counterexamples",
                 level="model_checking", level_note=ASSUME + note)
            for d, note in P if d["id"] in props.PROPS],
    not_applicable=[dict(property=a, reason=b) for a, b in NA],
    notes="No hooks: harness crates in /verif/harness use the public API of /repo's crates through path dependencies. "
          "known_findings.json lists defects found (known: recorded, fixed: repaired by a fix: commit). See DESIGN.md.",
)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
