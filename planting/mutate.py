#!/usr/bin/env python3
"""mutate.py KIND N SEED: N random changes of a kind, as trials m-KIND-SEED-i.diff with the property they are meant to break.
A change says nothing about whether it can be noticed: those not reported are looked at by hand."""
import sys,re,random,glob,os,subprocess
R='/tmp/seedw/repo'; P=R+'/Sourcecode/private/mx/'; T='/tmp/seedw/trials/'
kind,n,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); rnd=random.Random(kind+str(seed))
IMPL=glob.glob(P+'impl/*.cpp')+glob.glob(P+'impl/*.h'); CORE=glob.glob(P+'core/elements/*.cpp'); ATTR=[f for f in CORE if f.endswith('Attributes.cpp')]; EZ=glob.glob(P+'ezxml/src/private/private/Pugi*.cpp')
def lines(f): return open(f).read().split('\n')
def cand():
    out=[]
    if kind=='uninit':
        for f in ATTR+CORE:
            for i,l in enumerate(lines(f)):
                if re.match(r'\s*,\s*(has|my)\w+\(\s*(false|\w+::\w+)\s*\)\s*$',l) : out.append((f,[(i,'')],'T02'))
        for f in glob.glob(R+'/Sourcecode/include/mx/api/*.h'):
            for i,l in enumerate(lines(f)):
                if re.match(r'\s*,?\s*\w+\s*[({]\s*(false|0|-1|0\.0|\w+::unspecified)\s*[)}]\s*$',l) and l.strip().startswith(','): out.append((f,[(i,'')],'T02'))
    elif kind=='swallow':
        for f in IMPL+CORE:
            for i,l in enumerate(lines(f)):
                m=re.match(r'^(\s{8,})((?:[\w.>-]+(?:->|\.))?(?:push_back|emplace_back|add\w+|set\w+|insert\w*|append\w*)\(.*\);)\s*$',l)
                if m and not l.strip().startswith('return') and l.count('(')==l.count(')'): out.append((f,[(i,m.group(1)+'try { '+m.group(2)+' } catch( const std::exception& ) {}')],'F06'))
    elif kind=='abort':
        for f in IMPL+CORE:
            for i,l in enumerate(lines(f)):
                m=re.match(r'^(\s{12,})((?:[\w.>-]+(?:->|\.))?(?:push_back|emplace_back|add\w+|set\w+|insert\w*|append\w*)\(.*\);)\s*$',l)
                if m and l.count('(')==l.count(')'): out.append((f,[(i,m.group(1)+'[&]() noexcept { '+m.group(2)+' }();')],'F05'))
    elif kind=='bounds':
        for f in IMPL:
            for i,l in enumerate(lines(f)):
                if re.search(r'\.at\(\s*[^()]*(\([^()]*\))*[^()]*\)',l) and 'map' not in l.lower(): out.append((f,[(i,re.sub(r'\.at\(\s*((?:[^()]|\([^()]*\))*)\)',r'[ \1]',l))],'F07'))
                if 'MX_ASSERT' in l: out.append((f,[(i,'')],'F07'))
                m=re.match(r'^(\s*)if\s*\((.*(size\(\)|empty\(\)|end\(\)|< 0|nullptr).*)\)\s*$',l)
                if m: out.append((f,[(i,m.group(1)+'if( false && ('+m.group(2)+') )')],'F07')); out.append((f,[(i,m.group(1)+'if( true || ('+m.group(2)+') )')],'F07'))
    elif kind=='static':
        for f in IMPL+glob.glob(P+'core/*.cpp')+CORE+EZ+glob.glob(P+'api/*.cpp'):
            for i,l in enumerate(lines(f)):
                m=re.match(r'^(\s{8,})((?:std::string|utility::StringStream|std::stringstream|std::vector<[^;=]*>|int|bool|long double|double|size_t|auto|std::set<.*>)\s+(\w+))\s*((?:=|\{|\().*)?;\s*$',l)
                if m:
                    t=m.group(2); v=m.group(3); init=m.group(4) or ''
                    if init.startswith('='): 
                        if t.startswith('auto'): new=f'{m.group(1)}static {t} {init}; {v} {init};'
                        else: new=f'{m.group(1)}static {t}; {v} {init};'
                        out.append((f,[(i,new)],'C02'))
                    elif not init and ('string' in t or 'vector' in t or 'set' in t) and 'Stream' not in t and 'stream' not in t: out.append((f,[(i,f'{m.group(1)}static {t}; {v}.clear();')],'C02'))
    elif kind=='guard':
        for f in EZ:
            for i,l in enumerate(lines(f)):
                s=l.strip()
                if s in('EZXML_CHECK_NULL_NODE','EZXML_CHECK_NULL_ATTRIBUTE') or s.startswith('EZXML_CHECK_NULL') : out.append((f,[(i,'')],'E01'))
                elif re.match(r'^\s*if\(.*(getIsNull|lock|expired|isNull|IsNull).*\)\s*$',l): out.append((f,[(i,re.sub(r'if\(',r'if( false && ',l,1))],'E01'))
                elif 'keepAlive = ' in l: out.append((f,[(i,'')],'E01'))
    elif kind=='leak':
        for f in IMPL+glob.glob(P+'core/*.cpp')+CORE+glob.glob(P+'api/*.cpp'):
            for i,l in enumerate(lines(f)):
                m=re.match(r'^(\s{8,})(?:const )?auto (\w+) = (core::)?make(\w+)\(.*\);\s*$',l)
                if m: out.append((f,[(i,l+f' new auto( {m.group(2)} );')],'H03'))
                m=re.match(r'^(\s{8,})auto (\w+) = std::make_shared<.*>\(.*\);\s*$',l)
                if m: out.append((f,[(i,l+f' new auto( {m.group(2)} );')],'H03'))
    elif kind=='drop':
        for f in IMPL+CORE+glob.glob(P+'core/*.cpp'):
            fl=lines(f)
            for i,l in enumerate(fl):
                m=re.match(r'^\s{12,}((?:[\w.>-]+(?:->|\.))?(?:set\w+|add\w+|streamAttribute|my\w+->toStream)\(.*\);)\s*$',l)
                if m and l.count('(')==l.count(')'): out.append((f,[(i,'')],'D02'))
    return out
c=cand(); rnd.shuffle(c); print(kind,len(c),'candidates'); seen=set(); k=0
for f,ed,prop in c:
    if k>=n: break
    L=lines(f)
    for i,new in ed: L[i]=new
    old=open(f).read(); open(f,'w').write('\n'.join(L))
    d=subprocess.run(['git','-C',R,'diff'],stdout=-1,text=True,errors='replace').stdout
    # must compile
    r=subprocess.run(['g++','-std=c++17','-w','-fsyntax-only','-include','cstdint','-I'+R+'/Sourcecode/private','-I'+R+'/Sourcecode/include','-I'+P+'ezxml/src/include','-I'+P+'ezxml/src/private',f if f.endswith('.cpp') else P+'api/DocumentManager.cpp'],stderr=subprocess.DEVNULL)
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    if r.returncode or not d: continue
    open(f'{T}m-{kind}-{seed}-{k}.diff','w').write(d); open(f'{T}m-{kind}-{seed}-{k}.prop','w').write(prop+'\n'); k+=1
