#!/usr/bin/env python3
"""Development aid: which blocks of the library the simulated runs of a property reach.

  MX_BUILD=/tmp/covbld python3 tools/coverage.py PROP [SECONDS]     lists functions with blocks that were not reached"""
import os, sys, subprocess, struct, collections, tempfile, shutil
os.environ['MX_COV']='1'
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
prop=sys.argv[1]; T=sys.argv[2] if len(sys.argv)>2 else '40'; W=int(os.environ.get('MX_WORKERS','8'))
exe=B.build(); d=tempfile.mkdtemp(prefix='mxsim-'); ps=[]
import check as C
mul=C.POOL.get(prop,1)
for k in range(W):
    ps.append(subprocess.Popen([exe,'explore','--prop',prop,'--base',os.environ.get('VERIF_SEED','1'),'--from',str(k),'--stride',str(W),'--cpu',str(k),'--time',T,'--pool',str(40*mul),'--epoch',str(40*mul*C.TURN.get(prop,8)),'--recheck','0','--scratch',d,'--corpus',B.V+'/corpus','--maxbad','1000'],env=dict(os.environ,MX_COVOUT=f'{d}/c{k}'),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL))
for p in ps: p.wait()
hit=None
for k in range(W):
    b=open(f'{d}/c{k}','rb').read(); n=struct.unpack('<Q',b[:8])[0]; m=b[8:8+n]; pcs=struct.unpack(f'<{2*n}Q',b[8+n:8+n+16*n])[::2]
    hit=bytearray(m) if hit is None else bytearray(x|y for x,y in zip(hit,m))
shutil.rmtree(d)
r=subprocess.run(['llvm-symbolizer-18' if shutil.which('llvm-symbolizer-18') else 'llvm-symbolizer','--obj='+exe,'--functions=linkage','--demangle','--no-inlines','--output-style=GNU'],input='\n'.join(hex(p) for p in pcs),stdout=subprocess.PIPE,text=True).stdout.splitlines()
L=collections.defaultdict(int); names={}
for i in range(n):
    fn,loc=r[2*i],r[2*i+1]; loc=loc.split(' ')[0]; f,l=loc.rsplit(':',1)
    if '/Sourcecode/' not in f or l in ('0','?'): continue
    k=(f.split('/mx/',1)[-1],int(l)); L[k]|=hit[i]; names.setdefault(k,fn)
print(f'# {prop}: lines {len(L)}, reached {sum(1 for v in L.values() if v&1)}, in further threads {sum(1 for v in L.values() if v&2)}')
bit=2 if os.environ.get('MX_THREADED') else 1
F=collections.defaultdict(list)
for (f,l),v in sorted(L.items()):
    if not v&bit: F[(f,names[(f,l)][:90])].append(l)
for (f,fn),v in F.items(): print(f'{f}\t{fn}\t{",".join(map(str,v))}')
