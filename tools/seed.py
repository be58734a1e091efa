#!/usr/bin/env python3
"""seed.py DEFS.py [id ...]: makes seeded/<id>/ from the definitions in DEFS.py (a
list SEEDS of dicts id, prop, edits, needs, breaks, demo, [imports], [kind]) and
confirms each in a scratch worktree: compiles, passes the stable tests, demo 0 on
/repo and nonzero with the patch. Then runs the property's check on it.
seed.py --recheck [id ...]: runs the checks on the existing patches."""
import sys, os, json, subprocess, shutil, runpy, re
V='/verif'; S=V+'/seeded'; T='/tmp/seed'
BASE=json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, cwd=None, env=None, t=900):
    e=dict(os.environ); e.update(env or {})
    try: r=subprocess.run(['bash','-c',cmd],cwd=cwd,env=e,capture_output=True,text=True,timeout=t,errors='replace')
    except subprocess.TimeoutExpired: return 124,'TIMEOUT'
    return r.returncode, r.stdout+r.stderr
DEMO='''#!/bin/bash
# run with cwd = the repository; 0 when the property holds for the example
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOTOOLCHAIN=local
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export DEMO_TMP=$t
%(pre)secho '{"Replace":{"'$PWD'/featselect/zz_demo_test.go":"'$here'/demo_test.go"}}' > $t/o.json
GODEBUG=randseednop=0 %(env)sgo test%(flags)s -vet=off -count=1 -timeout 200s -overlay $t/o.json -run '^TestDemo$' ./featselect
'''
PRELUDE=open(V+'/tools/demo_prelude.go').read()
def worktree(name):
    w=f'{T}/w-{name}'
    shutil.rmtree(w,ignore_errors=True)
    sh('git -C /repo worktree prune')
    c,o=sh(f'git -C /repo worktree add -q --detach {w} HEAD')
    assert c==0,o
    return w
def drop(w): sh(f'git -C /repo worktree remove --force {w}')
def tests(w):
    log=w+'.log'
    c,o=sh(f'. /opt/vp/env.sh; GODEBUG=randautoseed=0 go test -json -vet=off -count=1 -timeout 10m ./... > {log}; python3 /opt/vp/results.py {log}.json gojson:{log}',cwd=w)
    r=json.load(open(log+'.json'))
    os.remove(log); os.remove(log+'.json')
    names=lambda x: set(x if isinstance(x,list) else x.keys())
    bad=names(BASE['stable'])-names(r['passed'])
    return bad
def blamefix(patch,w):
    fixes=set(sh("git -C /repo log --format=%H --grep='^fix:'")[1].split())
    f=None; out=[]
    for l in patch.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
        if m: ln=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            h=sh(f'git -C /repo blame -l -s -L{ln},{ln} HEAD -- {f}')[1].split()[0].lstrip('^')
            h=sh(f'git -C /repo rev-parse {h}')[1].strip()
            out.append(h in fixes); ln+=1
        elif l.startswith(' '): ln+=1
    return out
def check(w,name,props):
    res=[]
    for p in props:
        od=f'{T}/out-{name}'; os.makedirs(od,exist_ok=True)
        c,o=sh(f'./check.sh {p}',cwd=V,env={'VERIF_OUT':od,'VERIF_REPO':w,'VERIF_SEED':os.environ.get('VERIF_SEED','1'),'VERIF_TIER':'quick'})
        shutil.rmtree(od,ignore_errors=True)
        res.append((p,c,'VIOLATION property='+p in o,o[-300:]))
    return res
def main():
    a=sys.argv[1:]
    os.makedirs(T,exist_ok=True)
    if a and a[0]=='--recheck':
        ids=a[1:] or sorted(os.listdir(S))
        for i in ids:
            m=json.load(open(f'{S}/{i}/meta.json'))
            w=worktree(i)
            c,o=sh(f'git apply {S}/{i}/patch.diff',cwd=w)
            if c: print(i,'DOES NOT APPLY',o); drop(w); continue
            props=[m['property']]
            if os.environ.get('ALSO'): props+=os.environ['ALSO'].split()
            for p,c,v,o in check(w,i,props): print(i,p,'CAUGHT' if c==1 and v else 'MISSED rc=%d %s'%(c,o if c not in(0,1) else ''),flush=True)
            drop(w)
        return
    defs=runpy.run_path(a[0])['SEEDS']
    only=set(a[1:])
    for d in defs:
        i=d['id']
        if only and i not in only: continue
        if not only and os.path.exists(f'{S}/{i}/meta.json'): continue
        w=worktree(i); ok=True; msg=[]
        for f,x,y in d['edits']:
            s=open(f'{w}/{f}').read()
            if s.count(x)!=1: print(i,'EDIT NOT UNIQUE',f,s.count(x),repr(x[:60])); ok=False; break
            open(f'{w}/{f}','w').write(s.replace(x,y))
        if not ok: drop(w); continue
        c,o=sh('. /opt/vp/env.sh; gofmt -l featselect cmd; go build ./...',cwd=w)
        if c: print(i,'BUILD',o[:600]); drop(w); continue
        patch=sh('git diff',cwd=w)[1]
        bl=blamefix(patch,w)
        if not bl or all(bl): print(i,'WARNING only fix lines / no removed lines changed',bl)
        bad=tests(w)
        if bad: print(i,'TESTS FAIL',sorted(bad)[:5]); drop(w); continue
        dd=f'{S}/{i}'; shutil.rmtree(dd,ignore_errors=True); os.makedirs(dd)
        open(dd+'/patch.diff','w').write(patch)
        imports=['"fmt"','"math"','"math/rand"','"testing"','fs "github.com/davidkleiven/goselect/featselect"','"gonum.org/v1/gonum/mat"']+['"%s"'%x if '"' not in x else x for x in d.get('imports',[])]
        open(dd+'/demo_test.go','w').write('package featselect_test\n\nimport (\n'+''.join('\t%s\n'%x for x in imports)+')\n\n'+PRELUDE+'\nfunc TestDemo(t *testing.T) {\n'+d['demo'].strip('\n')+'\n}\n'+d.get('decl',''))
        sh('gofmt -w demo_test.go',cwd=dd)
        race=d.get('race')
        pre=''.join(f'go build -o $t/{n} {tg} || exit 2\n' for n,tg in d.get('bins',[]))
        open(dd+'/demo.sh','w').write(DEMO%dict(pre=pre,env='CGO_ENABLED=1 ' if race else '',flags=' -race' if race else ''))
        os.chmod(dd+'/demo.sh',0o755)
        json.dump({'property':d['prop'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(dd+'/meta.json','w'),indent=1)
        c0,o0=sh(f'bash {dd}/demo.sh',cwd='/repo',t=300)
        c1,o1=sh(f'bash {dd}/demo.sh',cwd=w,t=300)
        if c0!=0 or c1==0:
            print(i,'DEMO clean rc=%d patched rc=%d'%(c0,c1), o0[-900:] if c0 else o1[-200:]); shutil.rmtree(dd); drop(w); continue
        if 'build failed' in o1 or 'cannot find' in o1: print(i,'DEMO BUILD?',o1[-500:])
        for p,c,v,o in check(w,i,[d['prop']]): print(i,p,'CAUGHT' if c==1 and v else 'MISSED rc=%d'%c, (o if c not in (0,1) else ''),'| demo:',[l for l in o1.splitlines() if 'zz_demo' in l or 'demo_test.go' in l or 'panic' in l or 'DATA RACE' in l][:1],flush=True)
        drop(w)
main()
