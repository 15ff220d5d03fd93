#!/usr/bin/env python3
# One-off generator of objs.json: real RPKI objects with the modification time
# they must get, computed with the openssl command line (independent of krill-sync).
import re,base64,json,subprocess,datetime,sys
def run(*a,inp=None): return subprocess.run(a,input=inp,capture_output=True).stdout.decode('latin1')
def ts(s):
    s=s.strip(); 
    return int(datetime.datetime.strptime(s,"%b %d %H:%M:%S %Y GMT").replace(tzinfo=datetime.timezone.utc).timestamp())
def mtime(ext,d):
    if ext=='cer':
        return ts(run('openssl','x509','-inform','der','-noout','-startdate',inp=d).split('=',1)[1])
    if ext=='crl':
        return ts(run('openssl','crl','-inform','der','-noout','-lastupdate',inp=d).split('=',1)[1])
    o=run('openssl','cms','-cmsout','-print','-inform','der',inp=d)
    m=re.search(r'signingTime.*?UTCTIME:([^\n]*)',o,re.S)
    if m: return ts(m.group(1))
    return ts(re.search(r'notBefore: ([^\n]*)',o).group(1))
out=[]
cnt={}
for f,lim in (('/repo/test-resources/validation/good/rrdp/cd0c701d-ff09-4e95-8f2a-fa24de875fb5/3/0ab6e84be3ec9561/snapshot.xml',5),('/repo/test-resources/rrdp-rev2656/e9be21e7-c537-4564-b742-64700978c6b4/2656/snapshot.xml',7)):
    s=open(f).read()
    for u,b in re.findall(r'<publish\s+uri="([^"]*)"\s*>([^<]*)</publish>',s):
        d=base64.b64decode(b); ext=u.rsplit('.',1)[1]
        k=(f,ext); 
        if cnt.get(k,0)>=lim or len(d)>2500: continue
        try: m=mtime(ext,d)
        except Exception as e: print(u,e,file=sys.stderr); continue
        cnt[k]=cnt.get(k,0)+1
        out.append(dict(ext=ext,mtime=m,b64=base64.b64encode(d).decode()))
json.dump(out,open('/verif/sim/fixtures/objs.json','w'),indent=0)
print(len(out),sum(len(o['b64']) for o in out),cnt)
