#!/usr/bin/env python3
# One-off generator of signed.json from the recorded, fully valid repository tree.
import re,base64,json,sys,importlib.util
sys.argv=['x']
src=open('/verif/sim/fixtures/mkobjs.py').read().split('out=[]')[0]
exec(src)
b='/repo/test-resources/validation/good/'
s=open(b+'rrdp/cd0c701d-ff09-4e95-8f2a-fa24de875fb5/3/0ab6e84be3ec9561/snapshot.xml').read()
objs=[]
for u,x in re.findall(r'<publish\s+uri="([^"]*)"\s*>([^<]*)</publish>',s):
    d=base64.b64decode(x); objs.append(dict(uri=u,mtime=mtime(u.rsplit('.',1)[1],d),b64=base64.b64encode(d).decode()))
json.dump(dict(ta=base64.b64encode(open(b+'ta.cer','rb').read()).decode(),tal=open(b+'ta.tal').read(),objs=objs),open('/verif/sim/fixtures/signed.json','w'),indent=0)
print(len(objs))
