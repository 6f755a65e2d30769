"""Writes vsim/lazy_modules.txt: third-party modules imported on first use."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from vsim import boot
boot.reexec([os.path.abspath(__file__)])
import random
boot.warm()
from vsim import catalog, inputs
before=set(sys.modules)
import dask
for n,op in catalog.OPS.items():
    for s in range(6):
        r=random.Random(f'{n}{s}')
        p=op.gen(r)
        for ch in (0,1):
            c=catalog.fresh(n,p)
            i=inputs.chunk_inputs(c.inputs,inputs.gen_chunks(r,c.inputs)) if ch else c.inputs
            with dask.config.set(scheduler='sync'):
                k,v=inputs.outcome(lambda:c.fn(i))
                if k=='ok': inputs.outcome(lambda: inputs.compute(v))
new=sorted(m for m in set(sys.modules)-before if not m.startswith('vsim'))
old=[l.strip() for l in open(HERE+'/vsim/lazy_modules.txt')] if os.path.exists(HERE+'/vsim/lazy_modules.txt') else []
open(HERE+'/vsim/lazy_modules.txt','w').write('\n'.join(sorted(set(old)|set(new)))+'\n')
print(len(new),new)
