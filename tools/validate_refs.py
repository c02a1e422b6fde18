import sys, random, collections
sys.path.insert(0,'/verif')
from pgmon import core, models, gen
core.setup_repo()
import numpy as np
from pygmm import Scenario
rng=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 0)
import time
for n,spec in models.SPECS.items():
    cls=spec.load(); bad=collections.Counter(); ex=None; exc=collections.Counter(); t0=time.time(); dec=0; N=400; nf=0
    for i in range(N):
        s=gen.scenario(spec,rng,np=np)
        try: e=spec.expect(s)
        except Exception as err: exc['REF '+repr(err)[:60]]+=1; ex=ex or s; continue
        try: o=models.observe(spec,cls(Scenario(**gen.clean(s))),np)
        except Exception as err: exc['SUT '+repr(err)[:60]]+=1; ex=ex or s; continue
        d,b=models.compare(e,o,np); dec+=d
        nf+=sum(np.size(v) for v in e.values())-d
        if b: bad[b[0]]+=1; ex=ex or (s,b)
    print(n,'bad',dict(bad),'exc',dict(exc),'dec',dec,'nonfinite',nf,'%.2fms'%((time.time()-t0)/N*1e3),ex if ex else '')
