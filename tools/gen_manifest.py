"""Writes MANIFEST.json from properties.jsonl."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
note = ("Bounded: within the stated cases (printed in the evidence with sizes and symbolic positions) every value of the symbolic bytes is covered; "
        "the explored path conditions are proved by Z3 to cover the input space of every decided case. Outside the cases nothing is claimed. "
        "Trusted: rustc's LLVM IR (opt-level 1, overflow checks, panic=abort) as the meaning of the program, the engine's model of libc/argv/env/files, Z3, "
        "and the oracle in harness/src (spec.rs, tables.rs). Counterexamples and a sample of paths are replayed on the real executable.")
extra = {"P03": " The native stack limit is not modelled; the known finding about it is demonstrated separately."}
m = dict(version=1, setup_cmd="true", checks=[dict(property=p["id"], quick_cmd=f"./check.py {p['id']} quick", thorough_cmd=f"./check.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
    technique="whole-program symbolic execution of rustc's LLVM IR, path conditions and assertions decided by Z3", level="model_checking", level_note=note + extra.get(p["id"], "")) for p in props],
    not_applicable=[], notes="No hooks in /repo: the checks compile the unmodified pemv executable to LLVM IR and execute it symbolically from its C main.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
