import json,sys
sys.path.insert(0,'/verif/tools')
from plan import PLAN
T={
"C01":"TLA+ models enumerate inputs (TLC), replayed on the real parser; recorded random runs validated as traces",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={
"C01":"Outcome alphabet only (a result, no panic/abort/hang). Bounded: all lexeme sequences to depth 2 (3) in every context, all edits at every position of 8 rich texts, all escape-fragment strings, all boundary references, plus random mutated sessions. Nesting depth is limited (known finding).",
}
generic="The TLA+ specification (transcribed from the documented behaviour, with its laws checked by TLC as invariants and action properties of the bounded models) says what every call does; every model transition is stepped through the real code and compared in what the property is about, and randomised executions of the real code are validated as behaviours of the specification. Exhaustive within the stated constants, sampled beyond them."
checks=[]
for p in props:
    i=p['id']; pl=PLAN[i]
    mods=sorted({m['module'] for m in pl['models']})
    checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"env VERIF_TIER=thorough ./check {i}",
      "technique":"TLA+ specification checked with TLC ("+", ".join(mods)+"), model transitions replayed against the code, traces of the code validated against the specification",
      "level":"model_checking","level_note":notes.get(i,generic)+" Assumes: "+"; ".join(pl['assumes'])+"."})
m={"version":1,"setup_cmd":"sh tools/setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo are needed: the public API exposes the abstract state. ./check --replay FILE re-executes a violation. Known findings: known-findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
