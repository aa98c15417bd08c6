"""rewrites the planted-bug table of DESIGN.md"""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| id | what it breaks | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V,"seeded/*/meta.json"))):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    f=lambda s,n:(s[:n]+("…" if len(s)>n else "")).replace("|","/").replace("\n"," ")
    rows.append("| %s | %s | %s | %s |"%(i,f(m["what_it_breaks"],160),f(m["needs"],120),m["property"]))
s=open(os.path.join(V,"DESIGN.md")).read()
a=s.index("<!-- table -->")
t="<!-- table -->\n"+"\n".join(rows)+"\n<!-- end table -->"
s=s[:a]+t+s[s.index("<!-- end table -->")+len("<!-- end table -->"):]
open(os.path.join(V,"DESIGN.md"),"w").write(s)
