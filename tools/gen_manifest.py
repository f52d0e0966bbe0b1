import json,jsonschema
T={
"C01":"stateful model-based testing (reference set)","C02":"stateful model-based testing (reference set)",
"C03":"stateful model-based testing (listings from the model)",
"C04":"stateful generation + differential filter oracle","C05":"stateful generation + differential filter oracle",
"C06":"stateful generation + reference answers","C07":"stateful generation, view-vs-model differential",
"C08":"stateful generation + differential filter oracle","C09":"stateful generation, conservation invariant and model",
"C10":"two-phase stateful model-based testing","C11":"metamorphic testing over histories of equal content",
"C12":"generated pairs vs exhaustive bijection search, metamorphic renaming",
"C13":"enumeration + generated patterns vs reference semantics","C14":"enumeration + generated patterns vs reference semantics",
"C15":"enumeration + generated bindings vs reference semantics","C16":"stateful model-based testing (entry list)",
"C17":"enumeration + generated strings vs independent grammar","C18":"round trip through an independent N-Quads reader",
"C19":"round trip + generated malformed documents vs reference decoder","C20":"generated pairs and triples, algebraic and cross-form relations",
"C21":"enumeration + generated statements vs tuple model","C22":"stateful generation vs counter model","C23":"stateful generation vs table model",
"C25":"generated inputs vs RFC 4122 reference",
"C28":"metamorphic testing of generated sessions: alone, interleaved, on several threads",
"C29":"generated contents with counting resources against cost bounds",
"C27":"stateful generation with fault injection against an ownership ledger and a guarding allocator",
"C26":"differential testing of generated cases between builds with each set of features",
"C24":"generated programs of macro invocations vs directly built values",
}
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
bound={ # what is not covered
}
checks=[]
for i in ids:
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":T[i],"level":"exploration",
    "level_note":"Randomised and, where the space is small, exhaustive search of generated cases against an explicit oracle; no counterexample within the cases counted in the evidence. Trusts the oracle (DESIGN.md) and the compiled crate's dependencies; inputs outside the generators' reach are not covered."})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[],"notes":"No hooks: the checks use the crate's public API only. KNOWN_FINDINGS.txt lists the defects found and fixed. VERIF_SEED selects the cases, VERIF_CASES overrides their number; '<target>/debug/cNN replay FILE' re-executes a replay file."}
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
