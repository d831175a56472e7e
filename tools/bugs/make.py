import os,subprocess,sys,json,shutil,tempfile
ENV=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$ov"
go test -overlay "$ov" -count=1 -run '^TestDemo$' ./%s
'''
def bug(id,prop,file,edits,pkg,test,needs,breaks):
    only=sys.argv[1:]
    if only and id not in only: return
    w='/tmp/bugs/w'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['cp','-a','/repo',w])
    if isinstance(edits,tuple): edits=[edits]
    edits=[(e if len(e)==3 else (file,)+tuple(e)) for e in edits]
    for f,a,b in edits:
        s=open(w+'/'+f).read()
        if s.count(a)<1: print(id,'OLD NOT FOUND',a); return
        if s.count(a)>1: print(id,'OLD AMBIGUOUS',s.count(a)); return
        open(w+'/'+f,'w').write(s.replace(a,b))
    out='/verif/seeded/'+id
    os.makedirs(out,exist_ok=True)
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.sh','w').write(DEMO%(pkg,pkg)); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo_test.go','w').write(test)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(out+'/meta.json','w'),indent=1)
    r0=subprocess.run(['bash',out+'/demo.sh'],cwd='/repo',env=ENV,capture_output=True,text=True)
    r1=subprocess.run(['bash',out+'/demo.sh'],cwd=w,env=ENV,capture_output=True,text=True)
    t=subprocess.run(['go','test','./...'],cwd=w,env=ENV,capture_output=True,text=True)
    base=json.load(open('/opt/vp/BASELINE.json'))
    tr=subprocess.run(['go','test','-count=1','-v','./...'],cwd=w,env=ENV,capture_output=True,text=True)
    fails=[l for l in tr.stdout.splitlines() if l.strip().startswith('--- FAIL')]
    print(id,prop,'clean',r0.returncode,'patched',r1.returncode,'FAILS',fails[:5], (r0.stdout+r0.stderr)[-300:] if r0.returncode else '', r1.stdout[:300].replace('\n',' | ') if r1.returncode else '')
    shutil.rmtree(w,ignore_errors=True)
exec(open('/tmp/bugs/list.py').read())
