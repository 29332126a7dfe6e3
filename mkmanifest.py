#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl, the checker's registered checks and the lists below.
import json,subprocess,sys,os
V=os.path.dirname(os.path.abspath(__file__))
NA={
"C41":"Bounds on resident memory quantify over the runtime behaviour of the allocator, the garbage collector and the page cache; no sound static argument over this source bounds them.",
"C42":"Durability over power loss is decided by the kernel and file system; the program issues no sync calls from which an ordering argument could start, and nothing in the source promises it.",
"C43":"Termination in bounded time depends on input sizes, channel scheduling and numeric trip counts; the part that is static (accepted options, loop steps that advance, shutdown order) is decided under C15, C19, C20 and C35.",
"C44":"Whether a truncated file looks complete depends on where cancellation falls relative to buffered output; the source makes no attempt to mark it, so there is no construct that could carry the guarantee.",
"C45":"The importer is not in this repository; there is no source to analyse on the consuming side.",
}
NA.update(json.load(open(V+"/na_extra.json")) if os.path.exists(V+"/na_extra.json") else {})
desc=json.loads(subprocess.check_output([V+"/bin/osmcheck","list"]))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[]
na=[]
for p in props:
    i=p["id"]
    if i in desc and i not in NA:
        d=desc[i]
        checks.append({"property":i,"quick_cmd":"./run.sh quick "+i,"thorough_cmd":"./run.sh thorough "+i,
          "technique":d["technique"],"level":"other",
          "level_note":d["note"]})
    else:
        na.append({"property":i,"reason":NA.get(i,"Not decided yet by the machinery in this tree.")})
json.dump({"version":1,"setup_cmd":"./run.sh build","checks":checks,"not_applicable":na,
 "notes":"All checks are one static analyser (checker/): it loads /repo's current source with go/packages, builds SSA and decides each property by abstract interpretation, dataflow or typestate over it. Nothing in /repo is executed."},
 open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
