"""fills the table of planted changes in DESIGN.md (between the marks)"""
import json,os,re
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["<!-- seeds -->","| change | needs | caught by |","|---|---|---|"]
for s in sorted(os.listdir(D+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(D,s)))
    rows.append("| %s | %s | %s |"%(s,m['needs'].replace('|','/'),m['property']))
rows.append("<!-- /seeds -->")
p=D+'/DESIGN.md'; t=open(p).read()
new="\n".join(rows)
t=t.replace("SEEDTABLE",new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->",lambda m:new,t,flags=re.S)
open(p,'w').write(t)
