"""Builds the simulator from /repo's current working tree.  Incremental (ninja depfiles); from
scratch it takes well under a minute on 8 cores."""
import glob, os, subprocess, sys, hashlib, fcntl
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('MX_REPO','/repo')
B=os.environ.get('MX_BUILD',os.path.join(V,'.build'))
CXX='/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
UNITY=14
COV=os.environ.get('MX_COV')            # a build that records which blocks of the library run (tools/coverage.py)
CF='-fsanitize-coverage=trace-pc-guard,pc-table' if COV else ''

def sources():
    R=REPO+'/Sourcecode/private'
    s=[]
    for d,_,fs in os.walk(R+'/mx'):
        if d.startswith(R+'/mx/examples'): continue
        for f in fs:
            if f.endswith('.cpp') or f.endswith('.cc') or f.endswith('.cxx'): s.append(os.path.join(d,f))
    return sorted(s)

def write_if_changed(p,t):
    try:
        if open(p).read()==t: return
    except OSError: pass
    open(p,'w').write(t)

def gen(unity):
    R=REPO+'/Sourcecode/private'
    inc=f'-I{R} -I{REPO}/Sourcecode/include -I{R}/mx/ezxml/src/include -I{R}/mx/ezxml/src/private'
    os.makedirs(B+'/o',exist_ok=True)
    srcs=sources()
    el=[s for s in srcs if '/core/elements/' in s] if unity else []
    elset=set(el)
    groups=[[s] for s in srcs if s not in elset]
    for i in range(0,len(el),UNITY): groups.append(el[i:i+UNITY])
    L=[]
    base='-std=c++17 -w -fno-pie -mno-omit-leaf-frame-pointer -include cstdint'
    L.append(f'''ninja_required_version = 1.5
builddir = {B}
rule lib
  command = {CXX} {base} {inc} -O1 -D_GLIBCXX_ASSERTIONS -gline-tables-only -fsanitize=thread {CF} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = LIB $in
rule sim
  command = {CXX} {base} {inc} -I{V}/sim -O2 -g1 -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = SIM $in
rule link
  command = {CXX} -no-pie -fuse-ld=/usr/bin/ld.lld -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcmp,--wrap=memchr,--wrap=strlen,--wrap=vsnprintf @$out.rsp -o $out -Wl,--export-dynamic-symbol=* -lpthread -ldl
  rspfile = $out.rsp
  rspfile_content = $in
''')
    objs=[]
    for g in groups:
        if len(g)==1: src=g[0]; key=os.path.relpath(src,REPO)
        else:
            key='u:'+g[0]
            src=f'{B}/u_{hashlib.sha1("".join(g).encode()).hexdigest()[:12]}.cpp'
            write_if_changed(src,''.join(f'#include "{x}"\n' for x in g))
        o=f'{B}/o/{os.path.basename(src)[:-4]}_{hashlib.sha1(key.encode()).hexdigest()[:8]}.o'
        L.append(f'build {o}: lib {src}'); objs.append(o)
    for s in ("stl_inst","values","docedit"): o=f"{B}/o/{s}.o"; L.append(f"build {o}: lib {V}/sim/{s}.cpp"); objs.append(o)
    for s in sorted(glob.glob(V+'/sim/*.cpp')):
        if os.path.basename(s) in ("stl_inst.cpp","values.cpp","docedit.cpp") or (os.path.basename(s)=="cov.cpp" and not COV): continue
        o=f'{B}/o/sim_{os.path.basename(s)[:-4]}.o'; L.append(f'build {o}: sim {s}'); objs.append(o)
    L.append(f'build {B}/mxsim: link '+' '.join(objs)); L.append(f'default {B}/mxsim')
    write_if_changed(B+'/build.ninja','\n'.join(L)+'\n')

def build(quiet=True):
    os.makedirs(B,exist_ok=True)
    with open(B+'/lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        for unity in (True,False):
            gen(unity)
            r=subprocess.run(['ninja','-C',B,'-f',B+'/build.ninja']+(['--quiet'] if quiet else []),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if r.returncode==0: return B+'/mxsim'
        sys.stderr.write(r.stdout[-4000:]); raise SystemExit(3)
if __name__=='__main__':
    import time; t=time.time(); print(build('-v' not in sys.argv), '%.1fs'%(time.time()-t))
