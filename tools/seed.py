#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition file and confirms it in a scratch copy.

A definition is a Python file that sets: id, prop, needs, breaks, edits=[(file, old, new)], demo (Go test source of
package font with func TestDemo) or demo_main (for cmd/fontcmd). usage: seed.py DEF.py [--no-tests]
"""
import sys,os,subprocess,shutil,json,tempfile
SH='''#!/bin/bash
# run in /repo: exit 0 when the property holds for the demonstrated input
. /opt/vp/env.sh 2>/dev/null || true
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export TMPDIR=$w DEMO_OVERLAY=$w/o.json
cat > "$w/o.json" <<EOF
{"Replace":{"$PWD/@SUB@zz_demo_test.go":"$d/demo_test.go"}}
EOF
@CD@go test -overlay "$w/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
'''
def run(c,**k): return subprocess.run(c,shell=True,executable='/bin/bash',text=True,capture_output=True,**k)
def main(f,tests=True):
    g={}; exec(open(f).read(),g)
    id=g['id']; d='/verif/seeded/'+id
    scratch=tempfile.mkdtemp(prefix='seed-'+id+'-'); repo=scratch+'/repo'
    try:
        subprocess.check_call(['git','clone','-q','/repo',repo])
        os.makedirs(d,exist_ok=True)
        sub=g.get('sub','')
        open(d+'/demo_test.go','w').write(g['demo'])
        open(d+'/demo.sh','w').write(SH.replace('@SUB@',sub).replace('@CD@','cd '+sub+' && ' if sub else ''))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(d+'/meta.json','w'),indent=1)
        c=run('bash '+d+'/demo.sh',cwd=repo)
        if c.returncode!=0: print(id,'DEMO FAILS ON CLEAN TREE',c.stdout[-1500:],c.stderr[-1500:]); return 1
        for fn,a,b in g['edits']:
            s=open(repo+'/'+fn).read()
            if s.count(a)!=1: print(id,'edit matches',s.count(a),'times:',a); return 1
            open(repo+'/'+fn,'w').write(s.replace(a,b))
        diff=subprocess.check_output(['git','diff'],cwd=repo,text=True)
        open(d+'/patch.diff','w').write(diff)
        c=run('. /opt/vp/env.sh; gofmt -l *.go cmd/fontcmd; go vet ./... >/dev/null; go build ./... && cd cmd/fontcmd && go build -o /dev/null .',cwd=repo)
        if c.returncode!=0 or c.stdout.strip(): print(id,'BUILD',c.stdout,c.stderr); return 1
        c=run('bash '+d+'/demo.sh',cwd=repo)
        if c.returncode==0: print(id,'DEMO PASSES WITH THE CHANGE',c.stdout[-500:]); return 1
        if 'build failed' in c.stdout+c.stderr: print(id,'demo build',c.stdout,c.stderr); return 1
        why=[l for l in (c.stdout+c.stderr).splitlines() if l.strip()][:4]
        # fix-line check: removed lines must come from the base commit
        bl=[]
        for fn,_,_ in g['edits']:
            for l in subprocess.check_output(['git','diff','-U0',fn],cwd=repo,text=True).splitlines():
                if l.startswith('@@'):
                    o=l.split()[1][1:].split(','); st=int(o[0]); n=int(o[1]) if len(o)>1 else 1
                    if n: bl+=subprocess.check_output(['git','blame','-s','-L',f'{st},+{n}','HEAD','--',fn],cwd=repo,text=True).splitlines()
        if not any('a7d5613' in x for x in bl) and bl: print(id,'only lines of our own commits:',bl); return 1
        if tests:
            c=run('. /opt/vp/env.sh; go test -json -vet=off -count=1 ./... > '+scratch+'/t.log; python3 /opt/vp/results.py '+scratch+'/out.json "gojson:'+scratch+'/t.log"',cwd=repo)
            base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(scratch+'/out.json'))
            want=set(base['stable'])
            got=set(out.get('passed') or out.get('pass'))
            miss=sorted(want-got)
            if miss: print(id,'TESTS BROKEN',len(miss),miss[:5]); return 1
        print(id,'ok;','; '.join(why)[:300])
        return 0
    finally: shutil.rmtree(scratch)
if __name__=='__main__':
    sys.exit(max(main(f,'--no-tests' not in sys.argv) for f in sys.argv[1:] if not f.startswith('--')))
