#!/usr/bin/env python3
"""Fill DESIGN.md's generated parts from checks.json, properties.jsonl, tools/design_notes.json and seeded/."""
import json, os, glob, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J=lambda p: json.load(open(os.path.join(V,p)))
c=J('checks.json'); na=J('tools/not_applicable.json'); kf=J('known_findings.json'); notes=J('tools/design_notes.json')
props={}
for l in open(os.path.join(V,'properties.jsonl')):
    d=json.loads(l); props[d['id']]=d
t=[]
for k in sorted(c):
    n=notes.get(k,{})
    t.append("**%s %s.** %s\nOracle: %s\nBounds: %s.\nOutside: %s.\nCost: about %s s.\n"%(k,props[k]['title'],n.get('what',''),n.get('oracle',''),c[k].get('bounds',''),c[k].get('outside',''),n.get('cost','?')))
nas="\n".join("* **%s %s.** %s"%(k,props[k]['title'],v) for k,v in sorted(na.items()))
caught=notes.get('caught',{})
ss=["| seeded change | property | caught by |","|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V,'seeded','*','meta.json'))):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); ss.append("| %s: %s | %s | %s |"%(i,d['what_it_breaks'].strip().rstrip('.').replace('|','/')[:160],d['property'],caught.get(i,'not run yet')))
src=open(os.path.join(V,'tools','DESIGN.tmpl.md')).read()
src=src.replace('@@TABLE@@',"\n".join(t)).replace('@@NA@@',nas).replace('@@NFIX@@',str(len(kf['fixed']))).replace('@@SEEDS@@',"\n".join(ss))
open(os.path.join(V,'DESIGN.md'),'w').write(src)
