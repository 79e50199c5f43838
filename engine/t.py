import sys,importlib,time,facts,ir,report
import os,pickle
R=os.environ.get('R')
if R is None and os.path.exists('/tmp/raw2.pkl'): raw=pickle.load(open(os.environ.get('RAW','/tmp/raw2.pkl'),'rb'))
else: raw=facts.build(R)
m=importlib.import_module(sys.argv[1]); p=ir.Program(raw); r=report.Result(); t=time.time(); getattr(m, 'analyse')(p,r,False)
for v in r.violations:
    print(v['where'],v['what'],'['+v['key']+']')
    for l in v['path'][:8]: print('      ',l)
print(r.obligations,r.discharged,r.coverage,'%.1fs'%(time.time()-t))
