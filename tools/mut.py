#!/usr/bin/env python3
# mut.py FILE: quick trial of mutations. FILE defines MUTS = [(check, repo file, old, new), ...]; each is applied in a
# scratch copy, vetted with go build and checked; prints CAUGHT / MISSED and the keys.
import subprocess,sys,os,shutil
D='/tmp/mut'
subprocess.run(['rsync','-a','--delete','/repo/',D+'/'],check=False) if shutil.which('rsync') else (shutil.rmtree(D,ignore_errors=True),subprocess.run(['cp','-a','/repo/.',D]))
ns={}
exec(open(sys.argv[1]).read(),ns)
env=dict(os.environ,VERIF_REPO=D)
for i,m in enumerate(ns['MUTS']):
    chk,edits=m[0],m[1:]
    if isinstance(edits[0],str): edits=[edits]
    orig={}
    ok=True
    for f,o,n in edits:
        p=os.path.join(D,f); s=open(p).read()
        orig.setdefault(p,s)
        if s.count(o)<1: print(i,chk,'NOT FOUND',f,o[:60]); ok=False; break
        open(p,'w').write(s.replace(o,n,1))
    if ok:
        go='/opt/veriftools/go1.27.3/bin/go'
        pk=sorted({'./'+os.path.dirname(e[0]) for e in edits})
        b=subprocess.run([go,'build']+pk,cwd=D,capture_output=True,text=True,env=dict(env,GOFLAGS='-mod=readonly',GOPROXY='off'))
        r=subprocess.run(['/verif/check.sh',chk],capture_output=True,text=True,env=env)
        ls=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN') and not l.startswith('VIOLATION')]
        print(i,chk,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d'%r.returncode,'' if b.returncode==0 else 'DOES NOT BUILD '+b.stderr[:200],edits[0][0].split('/')[-1],repr(edits[0][1][:40]),'|',(ls[0][:450] if ls else r.stderr[:200]))
    for p,s in orig.items(): open(p,'w').write(s)
