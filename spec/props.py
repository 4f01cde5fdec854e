"""Source of properties.jsonl and MANIFEST.json: run `python3 spec/props.py`."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
E = "evm_arithmetization/src/"
K = E + "cpu/kernel/asm/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, level="model_checking", note=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level, note=note, na=na, hook=hook))


HK = "cfg zkevm_verif: evm_arithmetization::verif (constraint evaluation on caller-supplied field elements, CTL dump)"
HM = "cfg zkevm_verif: evm_arithmetization::verif (kernel constants, interpreter driver, prover-input override)"
SMTS = "SMT over the constraint polynomials obtained by running the compiled constraint code on a symbolic field; counterexample rows replayed through the real constraints"
SMTK = "symbolic execution of the assembled kernel bytecode into z3; counterexamples replayed on the real interpreter"

NOTES = {}
exec(open(os.path.join(HERE, "notes.py")).read())
exec(open(os.path.join(HERE, "props_list.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
    for p in P:
        if p["id"] in NOTES:
            p["na"], p["note"] = None, NOTES[p["id"]]
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "--cfg zkevm_verif", "enable": "rustflags in /verif/engine/.cargo/config.toml (path dependency on /repo/evm_arithmetization)",
                     "source_commits": HOOK_COMMITS},
           "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
