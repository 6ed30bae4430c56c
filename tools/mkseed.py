#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.go PKGDIR
Makes /verif/seeded/ID from a textual replacement and validates it in a scratch copy."""
import sys,os,subprocess,shutil,json
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(id,prop,edits,needs,breaks,demo,pkg,check=True):
    wt='/tmp/seedwt_'+id
    shutil.rmtree(wt,ignore_errors=True)
    sh(f'cp -a /repo {wt}')
    for f,old,new in edits:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1,(id,f,old,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=sh('git diff',cwd=wt).stdout
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo_test.go.txt','w').write(demo)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run in the repository: fails when the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
root="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/ov.json" <<EOF
{{"Replace": {{"$root/{pkg}/zz_demo_{id.lower().replace('-','_')}_test.go": "$here/demo_test.go.txt"}}}}
EOF
go test -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 120s -run '^TestSeededDemo$' ./{pkg} > "$tmp/out" 2>&1
rc=$?
tail -n 25 "$tmp/out"
exit $rc
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    r={}
    r['demo_clean']=sh(d+'/demo.sh',cwd='/repo')
    b=sh('. /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | grep -v "no test files" | tail -40',cwd=wt,executable='/bin/bash')
    r['tests']=b
    r['demo_patched']=sh(d+'/demo.sh',cwd=wt)
    ok = r['demo_clean'].returncode==0 and r['demo_patched'].returncode!=0
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    fails=[l for l in b.stdout.splitlines() if 'FAIL' in l]
    print(id,prop,'demo clean rc',r['demo_clean'].returncode,'patched rc',r['demo_patched'].returncode,'test FAIL lines:',fails[:5])
    if r['demo_clean'].returncode: print(r['demo_clean'].stdout[-1500:])
    if not r['demo_patched'].returncode: print('PATCHED DEMO PASSES', r['demo_patched'].stdout[-300:])
    shutil.rmtree(wt,ignore_errors=True)
    return ok
def checkit(id):
    d='/verif/seeded/'+id
    prop=json.load(open(d+'/meta.json'))['property']
    a=sh(f'git apply {d}/patch.diff',cwd='/repo')
    assert a.returncode==0,a.stderr
    try:
        r=sh(f'/verif/check {prop}',cwd='/verif')
    finally:
        sh('git checkout -- .',cwd='/repo')
    print(id,prop,'rc',r.returncode,[l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failing input' in l or 'discharged' in l])
    return r
if __name__=='__main__':
    for i in sys.argv[1:]:
        checkit(i)
