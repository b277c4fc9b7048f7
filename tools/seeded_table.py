#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between the markers of section 7."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| change | caught by | needs |","|---|---|---|"]
for d in sorted(os.listdir(root+"/seeded")):
    m=json.load(open("%s/seeded/%s/meta.json"%(root,d)))
    needs=m["needs"]; needs=needs if isinstance(needs,str) else json.dumps(needs)
    rows.append("| %s | %s | %s |"%(d,m["property"],needs.replace("|","\\|").replace("\n"," ")))
p=root+"/DESIGN.md"; s=open(p).read()
b,e="<!-- seeded -->","<!-- /seeded -->"
t=b+"\n"+"\n".join(rows)+"\n"+e
if "@@SEEDED@@" in s: s=s.replace("@@SEEDED@@",t)
else: s=s[:s.index(b)]+t+s[s.index(e)+len(e):]
s=re.sub(r"`seeded/<id>/`: \d+ changes","`seeded/<id>/`: %d changes"%(len(rows)-2),s)
open(p,'w').write(s)
