#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json and props/na.json."""
import json,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[];checks=[];na=[]
for f in sorted(glob.glob(root+'/props/[A-Z]*.json')):
    p=json.load(open(f)); i=os.path.basename(f)[:-5]
    props.append({"id":i,"title":p["title"],"statement":p["statement"],"quantifier":{"over":p["over"],"text":p["text"]},"why_tests_cant":p["why_tests_cant"],"anchors":{"files":p["files"],"mechanism":p["mechanism"]}})
    if p.get("not_applicable"):
        na.append({"property":i,"reason":p["not_applicable"]}); continue
    fns=p.get("proof",[])+[a+" (portable build)" for a in p.get("proof_arm64",[])]
    note="Every obligation the verifier generates from the current source of "+str(len(fns))+" function(s) under contract must be discharged; a bounded contract-driven search on the real code runs first to give replayable inputs"
    if p.get("bounded"): note+=". Bounded only: "+"; ".join(p["bounded"])
    note+="."
    checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick ./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i,
      "technique":"contract-based deductive verification: contracts on the Go functions, verification conditions generated from go/ssa of the current source, discharged by z3/cvc5; bounded contract-driven execution for failing inputs","level":"proof","level_note":note})
with open(root+'/properties.jsonl','w') as o:
    for p in props: o.write(json.dumps(p)+"\n")
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
open(root+'/MANIFEST.json','a').write("\n")
for p in props:
    assert len(p["title"])<=80,p["id"]
    assert p["statement"].count(". ")<=2,p["id"]
print(len(props),"properties",len(checks),"checks")

# DESIGN.md: the hand-written parts around one section per property
def bl(xs): return "\n".join("* "+x for x in xs) if xs else "* none"
o=open(root+"/tools/design_head.md").read()
o+="## The properties\n\n"
for f in sorted(glob.glob(root+'/props/[A-Z]*.json')):
    p=json.load(open(f)); i=os.path.basename(f)[:-5]
    o+="### "+i+" "+p["title"]+"\n\n"+p["statement"]+"\n\n"
    o+="Why tests cannot settle it: "+p["why_tests_cant"]+"\n\n"
    o+="Quantified over: "+p["text"]+". Anchored in "+", ".join("`"+x+"`" for x in p["files"])+" ("+p["mechanism"]+").\n\n"
    if p.get("not_applicable"): o+="Not applicable: "+p["not_applicable"]+"\n\n"; continue
    o+="Proved (all inputs, no bound), function by function:\n\n"+bl(["`"+x+"`" for x in p.get("proof",[])])+"\n\n"
    if p.get("proved_text"): o+=p["proved_text"]+"\n\n"
    if p.get("bounded"): o+="Bounded (harness only):\n\n"+bl(p["bounded"])+"\n\n"
    o+="Harness: "+p["rule"]+".\n\n"
    if p.get("assumptions"): o+="Assumed:\n\n"+bl(p["assumptions"])+"\n\n"
t=open(root+"/tools/design_tail.md").read()
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(f)); t+="| %s | %s | %s | ./check %s |\n"%(f.split("/")[-2],d["property"],d["what_it_breaks"].replace("|","/"),d["property"])
open(root+"/DESIGN.md","w").write(o+t)
