"""python3 -m sa.gen: writes properties.jsonl and MANIFEST.json from sa/props.py"""
import json, os
from . import props, workspace

NA = [
    ("X01", "Proving and verifying time and memory stay within practical bounds",
     "For every circuit and input, proof creation and verification finish within time and memory proportional to the circuit size, and on-chain verification stays within the chain's cycle limit.",
     ["inputs", "configurations"], "all circuits and inputs", "Tests measure nothing but completion on small circuits.",
     ["halo2_proofs/src/plonk/prover.rs", "ckb_bf_verifier/src/main.rs"], "resource bounds are runtime quantities (cycles, allocations); no sound static bound is in reach of this analysis"),
    ("X02", "Honest proofs always verify end to end",
     "For every program and input on which the interpreter halts, the proof created for its trace is accepted by the verifier with the same code and input.",
     ["programs", "inputs"], "all halting programs and inputs", "Tests prove a few programs.",
     ["ckb_bf_prover/src/main.rs", "halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/verifier.rs"],
     "end-to-end completeness is a composition over polynomial arithmetic on runtime-sized domains; the static checks decide its parts (B03-B08, H01-H18) but not the composed statement"),
    ("X03", "Accepted proofs imply a real execution, except with negligible probability",
     "No efficient adversary can produce an accepted proof for a code and input without a valid execution, assuming the discrete-log and random-oracle assumptions.",
     ["inputs"], "all adversaries", "Cryptographic soundness is not testable.",
     ["halo2_proofs/src/plonk/verifier.rs", "ckb_bf_base/src/main_config.rs"],
     "a computational-security claim; static analysis only decides the structural parts stated in B04-B09 and H01-H09"),
]


def main():
    V = workspace.VERIF
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            files = sorted({m[1] for m in p["mech"]} | {s if s.endswith(".rs") else s.rstrip("/") for s in p["anchors"] if not s.startswith(("~", "!", "const"))})
            files = [x for x in files if os.path.exists(os.path.join("/repo", x))]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        for i, t, s, o, q, w, fs, r in NA:
            f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w,
                                "anchors": {"files": fs, "mechanism": [{"name": "whole pipeline", "where": x} for x in fs]}}) + "\n")
    checks = []
    for p in props.PROPS:
        tech = "static analysis: value-graph normal forms of the type-checked program compared with reviewed reference behaviour"
        if p["rules"]:
            tech += "; intrinsic rules: " + ", ".join(p["rules"])
        checks.append({"property": p["id"], "quick_cmd": "python3 -m sa.check %s --tier quick" % p["id"], "thorough_cmd": "python3 -m sa.check %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "other",
                       "level_note": "sound for the decided functions modulo the modelled library semantics; functions whose normal forms cannot be compared are counted as undecided in the evidence"})
    m = {"version": 1, "setup_cmd": "python3 -m sa.workspace", "checks": checks,
         "not_applicable": [{"property": x[0], "reason": x[7]} for x in NA]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
