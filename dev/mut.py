#!/usr/bin/env python3
# mut.py mutants.txt [filter]: each mutant: "@ name props" then file, then <<<old===new>>>
import sys,re,os,subprocess,json,shutil
from concurrent.futures import ThreadPoolExecutor
txt=open(sys.argv[1]).read(); flt=sys.argv[2] if len(sys.argv)>2 else ''
ms=re.findall(r'^@ (\S+) (\S+)\n((?:\S+\n<<<\n.*?\n===\n.*?\n?>>>\n)+)',txt,re.S|re.M)
def do(m):
    name,props,body=m
    d='/tmp/m/'+name; os.makedirs(d,exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude','.git','--exclude','_build','--exclude','*.o','/repo/',d+'/r/'],check=True)
    for f,o,n in re.findall(r'(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>\n',body,re.S):
        p=d+'/r/'+f; s=open(p).read()
        if s.count(o)<1: shutil.rmtree(d); return name+': OLD NOT FOUND in '+f
        s=s.replace(o,n,1); open(p,'w').write(s)
    env=dict(os.environ,MB_REPO=d+'/r')
    code="import sys;sys.path.insert(0,'/verif');import lib;lib.bitcode('%s/bc')"%d
    os.makedirs(d+'/bc',exist_ok=True)
    p=subprocess.run(['python3','-c',code],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: shutil.rmtree(d); return name+': COMPILE '+p.stdout[-1500:]
    out=[]
    for pr in props.split(','):
        exp=True
        if pr[0]=='!': exp=False; pr=pr[1:]
        try: subprocess.run(['/verif/build/mbanalyze',d+'/bc/all.bc',d+'/r',pr,'quick',d+'/o.json'],timeout=int(os.environ.get("TMO","600")))
        except subprocess.TimeoutExpired: out.append(pr+' TIMEOUT'); continue
        r=json.load(open(d+'/o.json'))
        k=set()
        try: k={x['id'] for x in json.load(open('/verif/known-findings.json'))['findings']}
        except Exception: pass
        n=[f['id'] for f in r['findings'] if f['id'] not in k]
        ok = (bool(n)==exp) and not (r['errors'] and not n)
        out.append(('ok ' if ok else '** ')+pr+(' CAUGHT ' if n else ' quiet ')+'; '.join(n)[:300]+(' ERR '+str(r['errors']) if r['errors'] else ''))
    if not os.environ.get('KEEP'): shutil.rmtree(d)
    return name+': '+' | '.join(out)
os.makedirs('/tmp/m',exist_ok=True)
ms=[m for m in ms if flt in m[0] or flt in m[1]]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(do,ms): print(r,flush=True)
