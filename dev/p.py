import json,sys,subprocess,time
prop=sys.argv[1]; to=int(sys.argv[2]) if len(sys.argv)>2 and sys.argv[2].isdigit() else 200
bc='/tmp/bc/all.bc'
t=time.time()
try:
    p=subprocess.run(['/verif/build/mbanalyze',bc,'/repo',prop,'quick','/tmp/o_%s.json'%prop],timeout=to)
except subprocess.TimeoutExpired:
    print('TIMEOUT'); sys.exit(3)
r=json.load(open('/tmp/o_%s.json'%prop))
for f in r['findings']: print('##',f['file'],f['line'],f['id'],'\n   ',f['msg'][:400],'\n   via',f['trace'][:300])
print('ERR',r['errors'],r['counts'],'fns',len(r['functions']),'ob',len(r['obligations']),'%.1fs'%(time.time()-t))
if '-v' in sys.argv:
    for o in r['obligations']: print(o)
    for o in r['sites']: print(o)
    for o in r['notes']: print('note',o)
