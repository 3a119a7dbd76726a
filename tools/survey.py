"""Run a part without stopping at disagreements and list them by key (development aid)."""
import os, sys, json, collections, multiprocessing as mp, tempfile, importlib, traceback
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from lib import hypo; hypo.enable()
from lib import pbt
import hypothesis
from hypothesis import settings, given, HealthCheck, Phase
prop, partname, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
seed=int(os.environ.get('VERIF_SEED','1'))
mod=importlib.import_module('checks.'+prop)
part={p.name:p for p in mod.PARTS}[partname]
def work(k):
    d=tempfile.mkdtemp(prefix="survey_"); os.chdir(d); os.environ['OPENMDAO_WORKDIR']=d
    fd=os.open(d+'/log',os.O_WRONLY|os.O_CREAT); os.dup2(fd,1); os.dup2(fd,2)
    import resource; resource.setrlimit(resource.RLIMIT_AS,(4<<30,4<<30))
    found={}; cnt=collections.Counter(); lab=collections.Counter()
    class C(pbt.Ctx):
        def fail(self,msg,key=None):
            key=key or msg[:80]
            cnt[key]+=1
            if key not in found: found[key]=(msg,json.dumps(self.case,default=pbt.jdefault))
    if part.setup: part.setup()
    @hypothesis.seed(pbt.shard_seed(seed,partname,k))
    @settings(max_examples=n//8,database=None,deadline=None,phases=[Phase.generate],suppress_health_check=list(HealthCheck))
    @given(part.strategy)
    def t(case):
        import faulthandler; faulthandler.dump_traceback_later(25,exit=False)
        c=C(); c.case=case
        try: pbt.run_case(part,case,c)
        except pbt.Discard as e:
            lab['DISCARD']+=1
            if isinstance(e.__cause__,MemoryError): c.fail(traceback.format_exc()[-900:],'MEMORY')
        except pbt.Violation as v: c.fail(v.msg,v.key)
        except Exception: c.fail(traceback.format_exc()[-600:],'HARNESS '+traceback.format_exc().strip().split('\n')[-1][:100])
        if c.nontrivial_: lab['NONTRIVIAL']+=1
        for l in c.labels: lab[l]+=1
    t()
    return found,cnt,lab
import atexit, shutil, glob
if __name__=='__main__':
    with mp.get_context('fork').Pool(8) as pool:
        rs=pool.map(work,range(8))
    F={};N=collections.Counter();L=collections.Counter()
    for f,c,l in rs:
        N.update(c);L.update(l)
        for k,v in f.items(): F.setdefault(k,v)
    print(dict(L))
    for k,c in N.most_common():
        print(c,k,'\n     ',F[k][0][:700].replace('\n','\n      '))
    for d in glob.glob('/tmp/survey_????????'): shutil.rmtree(d, ignore_errors=True)
    json.dump({k:[json.loads(v[1]),v[0],N[k]] for k,v in F.items()},open('/tmp/survey_%s_%s.json'%(prop,partname),'w'))
