#!/usr/bin/env python3
# mkpatch.py id prop needs breaks file old new [file old new ...]
import sys,subprocess,json,os,tempfile,shutil
id_,prop,needs,br=sys.argv[1:5]; rest=sys.argv[5:]
d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded',id_); os.makedirs(d,exist_ok=True)
t=tempfile.mkdtemp()
out=''
files={}
for i in range(0,len(rest),3):
    f,o,n=rest[i:i+3]
    s=files.get(f) or open('/repo/'+f).read()
    assert s.count(o)==1,(f,s.count(o),o)
    files[f]=s.replace(o,n)
for f,s in files.items():
    p=os.path.join(t,'x'); open(p,'w').write(s)
    r=subprocess.run(['diff','-u','--label','a/'+f,'--label','b/'+f,'/repo/'+f,p],capture_output=True,text=True).stdout
    out+=r
open(d+'/patch.diff','w').write(out)
json.dump({"property":prop,"needs":needs,"what_it_breaks":br},open(d+'/meta.json','w'),indent=1)
shutil.rmtree(t)
