#!/usr/bin/env python3
"""mkseed.py ID file.py : file defines PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (cpp text), SRCS, [SH], FILES"""
import sys,os,subprocess,json,shutil,re
sid=sys.argv[1]; ns={}
exec(open(sys.argv[2]).read(),ns)
d='/verif/seeded/'+sid
os.makedirs(d,exist_ok=True)
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
assert sh('git -C /repo status --porcelain').stdout.strip()=='', 'repo dirty'
try:
    for f,o,n in ns['EDITS']:
        p='/repo/'+f; s=open(p,newline='',encoding='latin-1').read()
        crlf='\r\n' in s
        if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        assert s.count(o)==ns.get('COUNT',1),(f,o,s.count(o))
        s=s.replace(o,n); open(p,'w',newline='',encoding='latin-1').write(s)
    diff=subprocess.run('git -C /repo diff --binary',shell=True,stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
finally:
    sh('git -C /repo checkout -- .')
open(d+'/demo.cpp','w').write(ns['DEMO'])
for k,v in ns.get('FILES',{}).items(): open(d+'/'+k,'w').write(v)
SH=ns.get('SH') or '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -g -w %s -I"$repo" "$here/demo.cpp" %s -o "$tmp/demo" -lpthread -ldl -lrt || exit 3
cd "$tmp" && timeout 120 ./demo
''' % (ns.get('CXX','-O1'),' '.join('"$repo/%s"'%x for x in ns['SRCS']))
open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
json.dump({'property':ns['PROP'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
r=sh('bash %s/demo.sh'%d,cwd='/repo'); print('demo clean rc',r.returncode,r.stdout[-300:])
if r.returncode: sys.exit('demo fails on clean')
try:
    r=sh('git -C /repo apply %s/patch.diff'%d); assert r.returncode==0,r.stdout
    r=sh('bash /opt/vp/test.sh /tmp/w/seedout.json')
    base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/w/seedout.json'))
    def passed(j):
        for k in ('passed','pass','stable'):
            if k in j: return set(j[k]) if isinstance(j[k],list) else set(j[k].keys())
        return set(k for k,v in j.items())
    miss=passed(base)-passed(out); print('tests missing:',list(miss)[:5])
    r=sh('bash %s/demo.sh'%d,cwd='/repo'); print('demo patched rc',r.returncode,r.stdout[-300:])
    ok=r.returncode!=0 and not miss
    for p in ([ns['PROP']] if len(sys.argv)<4 else sys.argv[3:]):
        r=sh('python3 run.py %s quick'%p,cwd='/verif'); print('CHECK',p,'rc',r.returncode,r.stdout[-700:])
    print('SEED', sid, 'VALID' if ok else 'INVALID', 'CAUGHT' if r.returncode==1 else 'MISSED')
finally:
    sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
