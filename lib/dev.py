import sys, json, subprocess, os, importlib
sys.path.insert(0,'/verif/lib'); sys.path.insert(0,'/verif/contracts')
import contracts as C, vgen, verus
pid=sys.argv[1]; NLO=os.environ.get('NL')
src=sys.argv[2] if len(sys.argv)>2 else '/repo/src'
P=C.PROPS[pid]
allk=set()
allk=set(P.fns)|set(getattr(P,'request',[]))
os.makedirs('/tmp/gen',exist_ok=True)
json.dump({'fns':sorted(allk)},open('/tmp/gen/req.json','w'))
ex=json.loads(subprocess.run(['/verif/build/extractor/release/extractor',src,'/tmp/gen/req.json'],capture_output=True,text=True,check=True).stdout)
if getattr(P,'dynamic',None):
    allk|=set(P.dynamic(ex,P)[1]); json.dump({'fns':sorted(allk)},open('/tmp/gen/req.json','w'))
    ex=json.loads(subprocess.run(['/verif/build/extractor/release/extractor',src,'/tmp/gen/req.json'],capture_output=True,text=True,check=True).stdout)
g=vgen.Gen(ex,C,P,alg=bool(os.environ.get('ALG'))); o=g.build()
path=f'/tmp/gen/{pid}.rs'; open(path,'w').write(o.text())
print('missing',g.missing,'stubs',g.stubs)
r=verus.run(path,nl=(P.nl if NLO is None else int(NLO) or None),rlimit=P.rlimit)
for d in r['diags']:
    if d['level']=='error':
        print(d.get('rendered') or d['message'])
print(r['json'] and r['json'].get('verification-results'), round(r['wall'],1))
if not r['json']: print(r['stderr'][-3000:])
if len(sys.argv)>3:
    for m in r['json']['times-ms']['smt']['smt-run-module-times']:
        for f in sorted(m['function-breakdown'],key=lambda f:-f['time'])[:8]: print(f['time'],f['rlimit'],f['function'],f['success'])
if os.environ.get('VAC'):
    ex=json.loads(subprocess.run(['/verif/build/extractor/release/extractor',src,'/tmp/gen/req.json'],capture_output=True,text=True,check=True).stdout)
    g=vgen.Gen(ex,C,P,vacuity=True); o=g.build(); path=f'/tmp/gen/{pid}_vac.rs'; open(path,'w').write(o.text())
    r=verus.run(path,nl=P.nl or None,rlimit=P.rlimit)
    print(r['json'] and r['json']['verification-results'])
    for d in r['diags']:
        if d['level']=='error' and 'assertion failed' not in d['message']: print(d.get('rendered')[:1500])
