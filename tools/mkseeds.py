#!/usr/bin/env python3
# mkseeds.py [id...]: builds seeded/<id>/ from tools/seeds/<id>.txt after confirming it in a scratch copy.
# format: header lines "key: value" (property, pkg, needs, breaks), then sections
#   === file PATH / <<<< old / ==== / new / >>>> (repeatable), and === demo (a Go test file)
import sys,os,re,subprocess,json,shutil,tempfile,glob
V=os.path.dirname(os.path.abspath(__file__))+'/..'
V=os.path.realpath(V)
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GO111MODULE='on',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
DEMO='''#!/bin/bash
# runs demo_test.go inside the package %s of the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%s/zdemo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/ov.json"
TMPDIR=$T timeout 250 go test -overlay "$T/ov.json" -vet=off -count=1 -run '^TestDemo' ./%s
'''
def parse(p):
    s=open(p).read()
    head,rest=s.split('\n=== ',1)
    d=dict(re.match(r'(\w+): (.*)',l).groups() for l in head.splitlines() if l.strip())
    d['edits']=[];d['demo']=None
    for sec in ('=== '+rest).split('\n=== '):
        sec=sec[4:] if sec.startswith('=== ') else sec
        first,body=sec.split('\n',1)
        if first.startswith('file '):
            for old,new in re.findall(r'<<<<\n(.*?)====\n(.*?)>>>>',body,re.S): d['edits'].append((first[5:].strip(),old,new))
        elif first=='demo': d['demo']=body
    return d
def run(cmd,cwd,to=400): return subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True,timeout=to)
ids=sys.argv[1:] or [os.path.basename(f)[:-4] for f in sorted(glob.glob(V+'/tools/seeds/*.txt'))]
bad=0
for i in ids:
    d=parse(f'{V}/tools/seeds/{i}.txt')
    T=tempfile.mkdtemp(prefix='seed',dir='/tmp'); R=T+'/repo'
    try:
        run(['git','worktree','prune'],'/repo')
        subprocess.check_call(['cp','-a','/repo',R])
        out=f'{T}/out'; os.mkdir(out)
        open(out+'/demo_test.go','w').write(d['demo']); open(out+'/demo.sh','w').write(DEMO%(d['pkg'],d['pkg'],d['pkg'])); os.chmod(out+'/demo.sh',0o755)
        r0=run(['bash',out+'/demo.sh'],R)
        if r0.returncode: print(i,'DEMO FAILS on clean tree\n',(r0.stdout+r0.stderr)[-3000:]);bad+=1;continue
        for f,o,n in d['edits']:
            s=open(R+'/'+f).read()
            if s.count(o)!=1: print(i,'edit matches',s.count(o),'times in',f);bad+=1;break
            open(R+'/'+f,'w').write(s.replace(o,n))
        else:
            diff=run(['git','diff'],R).stdout
            b=run(['go','build','./...'],R)
            t=run(['go','test','-vet=off','-count=1','./...'],R)
            r1=run(['bash',out+'/demo.sh'],R)
            if b.returncode or t.returncode: print(i,'build/test fails',(b.stderr+t.stdout)[-1500:]);bad+=1;continue
            if r1.returncode==0: print(i,'DEMO PASSES with the bug');bad+=1;continue
            if 'build failed' in r1.stdout+r1.stderr: print(i,'demo does not build',r1.stdout[-1000:]);bad+=1;continue
            S=f'{V}/seeded/{i}'; shutil.rmtree(S,ignore_errors=True); os.makedirs(S)
            for x in os.listdir(out): shutil.copy(out+'/'+x,S)
            open(S+'/patch.diff','w').write(diff)
            json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(S+'/meta.json','w'),indent=1)
            print(i,'ok:',[l for l in r1.stdout.splitlines() if 'FAIL' not in l][:2])
    finally: shutil.rmtree(T,ignore_errors=True)
sys.exit(bad>0)
