#!/usr/bin/env python3
# Source of MANIFEST.json (run by hand: python3 tools/mkmanifest.py > MANIFEST.json)
import json,sys
SOUND="Trusts the harness's reference model. "
C={
"C01":("property-based testing: generated definition documents against a reference model","Sampled documents; "+SOUND+"YAML text comes from the harness's own writer."),
"C03":("property-based testing: generated database pairs, differential against a reference apply","Sampled pairs, several hash-iteration orders; "+SOUND),
"C04":("property-based testing: generated database pairs, changes checked against an independent comparison","Sampled pairs; "+SOUND),
"C05":("property-based testing: generated change sequences, round trip through reverses","Sampled databases and change sequences; "+SOUND),
"C14":("structured fuzzing: token soup, YAML trees and single corruptions of valid documents with a known verdict","Sampled inputs; a crash or hang of the worker process is a violation. "),
"C22":("property-based testing: serialisation round trips and replay of stored changes","Sampled changes with arbitrary field values. "),
"C23":("model-based testing: generated change sequences against a strict reference semantics","Sampled databases and changes, applicable or not; "+SOUND),
}
import os
if os.path.exists(os.path.join(os.path.dirname(__file__),"claims.json")):
    for k,v in json.load(open(os.path.join(os.path.dirname(__file__),"claims.json"))).items(): C[k]=tuple(v)
ids=[json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"))]
m=dict(version=1,setup_cmd="bash setup.sh",
 hooks=dict(guard="podo_verif",enable='RUSTFLAGS="--cfg podo_verif" (cargo build of the harness, which depends on /repo by path)',source_commits=["82a923d97ebe7380910f282c8448ec29bd127f46"]),
 checks=[],not_applicable=[])
for i in ids:
    if i in C:
        t=C[i]
        m["checks"].append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          technique=t[0],level=t[2] if len(t)>2 else "exploration",level_note=t[1].strip()))
    else:
        m["not_applicable"].append(dict(property=i,reason="check under construction"))
print(json.dumps(m,indent=1))
