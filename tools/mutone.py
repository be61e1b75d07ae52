"""mutone.py IDX : apply mutant, run checks on 3 configs; print json line"""
import sys, os, json, subprocess, shutil, tempfile, time, random, signal
i=int(sys.argv[1]); m=json.load(open('/tmp/w1/mut/list.json'))[i]
S='/tmp/w1/mut/r%d'%i
shutil.rmtree(S,ignore_errors=True)
shutil.copytree('/repo',S,ignore=shutil.ignore_patterns('.git','__pycache__','doc'))
p=S+'/'+m['f']; t=open(p).read(); t=t[:m['a']]+m['new']+t[m['b']:]; open(p,'w').write(t)
os.environ['VERIF_REPO']=S; os.environ['VERIF_SEED']='7'
sys.path.insert(0,'/tmp/w1/mut/lib'); sys.dont_write_bytecode=True
wd=tempfile.mkdtemp(prefix='/tmp/w1/mut/w'); os.chdir(wd)
import build, engine, props
from sim import Sim
so=sys.stdout; sys.stdout=sys.stderr
r=dict(i=i,f=m['f'],line=m['line'],kind=m['kind'],old=m['old'][:100],new=m['new'][:100],kill={},state='ok')
N=int(os.environ.get('MN','40'))
try:
    sims=[]
    import concurrent.futures as cf
    shutil.copytree('/tmp/w1/mut/rt',wd,dirs_exist_ok=True) if os.path.isdir('/tmp/w1/mut/rt') else [build.build_rt(wd,n) for n in build.RT]
    for c in [(128,32,64,2,32,8),(64,32,32,1,32,8) if i%2 else (128,32,32,1,32,8),(256,64,256,2,32,8) if i%3 else (128,128,64,2,32,8)]:
        try: sims.append((c,Sim(build.build(c,wd))))
        except build.BuildError as e: r['state']='nobuild'; break
    if r['state']=='ok':
        for pid,C in props.DYN.items():
            if pid in('C17','C24','C25','C27','C14'): continue
            ch=C(); pl=[c for c,_ in ch.cfgs(random.Random(1),'quick')]
            done=0
            for c,s in sims:
                if pid=='C15' and c[1]!=32: continue
                if pid not in ('C15',) and c not in pl and c!=sims[0][0]: continue
                t0=time.time()
                for k in range(N*3):
                    case=ch.gen(engine.case_rng(pid,7,c,k),c); done+=1
                    signal.alarm(60)
                    msg=ch.check(case,s)[0]
                    if msg: r['kill'][pid]=[k,msg[:90]]; break
                    if time.time()-t0>6: break
                if pid in r['kill']: break
except Exception as e: r['state']='err %s %s'%(type(e).__name__,str(e)[:200])
sys.stdout=so
print(json.dumps(r),flush=True)
os.chdir('/'); shutil.rmtree(wd,ignore_errors=True); shutil.rmtree(S,ignore_errors=True); os._exit(0)
