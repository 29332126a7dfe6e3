#!/usr/bin/env python3
# Fills the generated parts of DESIGN.md from properties.jsonl, the checker, known_findings.txt and seeded/.
import json,re,os,glob
V=os.path.dirname(os.path.abspath(__file__))
man=json.load(open(V+"/MANIFEST.json"))
props={p["id"]:p for p in map(json.loads,open(V+"/properties.jsonl"))}
extra=json.load(open(V+"/design_extra.json")) if os.path.exists(V+"/design_extra.json") else {}
TAIL=" The verdict is for all inputs of the functions named"
def sec():
    r=[]
    for c in man["checks"]:
        i=c["property"]; n=c["level_note"]
        body,_,rest=n.partition(TAIL)
        m=re.search(r"Assumes: (.*?)\. Trusts",rest)
        p=props[i]
        r.append(f"### {i} {p['title']}\n*Specified:* {p['statement']}\n\n*Decided by:* {body.strip()}")
        if i in extra: r.append(f"\n*Remarks:* {extra[i]}")
        r.append(f"\n*Bounds:* none ({p['quantifier']['text']})."+(f" *Assumes:* {m.group(1)}." if m else "")+f"\n\n*Beyond tests:* {p['why_tests_cant']}\n")
    return "\n".join(r)
def na(): return "\n".join(f"* {x['property']} {props[x['property']]['title']}: {x['reason']}" for x in man["not_applicable"])
def fixed():
    r=[]
    for l in open(V+"/known_findings.txt"):
        m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l)
        if m: r.append(f"* {m[1]} ({m[2]}): {m[3]}")
        m=re.match(r"finding: (.*)",l)
        if m: r.append("* recorded, not repaired: "+m[1])
    return "\n".join(r)
def seeds():
    r=["| change | property | what it breaks | needs | caught by |","|---|---|---|---|---|"]
    for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
        m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
        f=lambda s:str(s).replace("|","/").replace("\n"," ")
        r.append(f"| {n} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {m.get('caught_by',m['property'])} |")
    return "\n".join(r)
s=open(V+"/DESIGN.md").read()
for k,f in (("properties",sec),("na",na),("fixed",fixed),("seeds",seeds)):
    a=f"<!-- generated: {k} -->"; i=s.index(a)+len(a); j=s.index("<!-- end -->",i)
    s=s[:i]+"\n"+f()+"\n"+s[j:]
open(V+"/DESIGN.md","w").write(s)
