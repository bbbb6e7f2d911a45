"""Turns the MusicXML 3.0 schema into sim/grammar.inc, the table from which the simulator grows
documents that use every element and attribute of the format.  Run by hand; the result is committed,
so that the checks do not depend on the schema file.   grammar.py /repo/Documents/musicxml.xsd"""
import sys, os
import xml.etree.ElementTree as ET
X='{http://www.w3.org/2001/XMLSchema}'
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root=ET.parse(sys.argv[1]).getroot()
ct={};st={};grp={};ag={};ge={}
for c in root:
    n=c.get('name')
    if c.tag==X+'complexType': ct[n]=c
    elif c.tag==X+'simpleType': st[n]=c
    elif c.tag==X+'group': grp[n]=c
    elif c.tag==X+'attributeGroup': ag[n]=c
    elif c.tag==X+'element': ge[n]=c
def body(e): return [c for c in e if c.tag not in(X+'annotation',)]
TEXT=['plain','A & B','x < y','caf\u00e9',' padded ','two\nlines','tab\there','"q"',"it's",']]>','\u266d\U0001d11e','--','long long long long long long text','1.5','a,b;c','&amp;','<b/>','.','\u00a0x']
TOKEN=['plain','A & B','x<y','caf\u00e9','one two','"q"','7','a,b',"it's",'\u266d']
DEC=['0','1','-1.5','12.345678','100','0.125','7','33.3333333333','-200.01','1e-05'[:1]+'.5']
PRIM={'xs:string':TEXT,'xs:token':TOKEN,'xs:NMTOKEN':['a.b','n-1','tok'],'xs:ID':['P1'],'xs:IDREF':['P1'],'xs:decimal':DEC,'xs:integer':['0','1','-2','12','300'],'xs:nonNegativeInteger':['0','1','2','12'],'xs:positiveInteger':['1','2','3','12'],
 'xs:date':['2013-04-09','1999-12-31'],'xs:anyURI':['http://a.b/c?d=e&f','x.png'],'xs:language':['en','de'],'xml:lang':['en','it'],'xml:space':['default','preserve']}
special={'color':['#800080','#40800080','#FFFFFF'],'comma-separated-text':['Arial','Times, Serif','a,b,c'],'ending-number':['1','1, 2','1,3','2'],'time-only':['1','1, 2','3'],'yyyy-mm-dd':['2013-04-09','1999-12-31']}
def values(t):
    if t in special: return special[t]
    if t in PRIM: return PRIM[t]
    e=body(st[t])[0]
    if e.tag==X+'union':
        v=[]
        for m in (e.get('memberTypes')or'').split(): v+=values(m)
        for s in e.findall(X+'simpleType'): v+=restr(body(s)[0])
        return v
    return restr(e)
def restr(e):
    en=[c.get('value') for c in body(e) if c.tag==X+'enumeration']
    if en: return en
    b=values(e.get('base')) if e.get('base') else []
    lo=hi=None; minlen=0
    for c in body(e):
        k=c.tag.replace(X,''); v=c.get('value')
        if k=='minInclusive': lo=(float(v),True)
        elif k=='minExclusive': lo=(float(v),False)
        elif k=='maxInclusive': hi=(float(v),True)
        elif k=='minLength': minlen=int(v)
    if lo or hi:
        isint='.' not in ''.join(b) or e.get('base') in('xs:integer','xs:positiveInteger','xs:nonNegativeInteger')
        isint=isint and e.get('base')!='xs:decimal'
        o=[x for x in b if (not lo or float(x)>lo[0] or lo[1] and float(x)==lo[0]) and (not hi or float(x)<=hi[0])]
        for l in (lo,hi):
            if l and l[1]: o.append(str(int(l[0])))
        if not isint and lo: o.append(str(lo[0]+0.25))
        return sorted(set(o))
    return [x for x in b if len(x)>=minlen] or ['x']
stypes={}
def sval(t):
    if t not in stypes: stypes[t]=values(t)
    return t
types={}
anon={}
def occ(e): return int(e.get('minOccurs','1')),(99 if e.get('maxOccurs')=='unbounded' else int(e.get('maxOccurs','1')))
def expr(e):
    lo,hi=occ(e); k=e.tag.replace(X,'')
    if k=='element':
        n=e.get('name'); t=e.get('type')
        if e.get('ref'): raise SystemExit('ref element')
        if not t:
            inner=e.find(X+'complexType')
            if inner is not None: t=f'{n}@{len(anon)}'; anon[t]=1; dotype(t,inner)
            else: raise SystemExit('anon simple '+n)
        else: need(t)
        return f'e {n} {t} {lo} {hi}'
    if k=='group':
        g=grp[e.get('ref')]; inner=[c for c in body(g) if c.tag in(X+'sequence',X+'choice')][0]
        return f's {lo} {hi} 1 '+expr(inner)
    ch=[expr(c) for c in body(e)]
    return f'{"s" if k=="sequence" else "c"} {lo} {hi} {len(ch)} '+' '.join(ch)
def attrs(e):
    o=[]
    for c in body(e):
        if c.tag==X+'attribute':
            n=c.get('name') or c.get('ref'); 
            if c.get('fixed'): stypes.setdefault('!'+c.get('fixed'),[c.get('fixed')]); t='!'+c.get('fixed')
            elif c.get('ref'):
                r=c.get('ref'); t={'xml:lang':'xml:lang','xml:space':'xml:space'}.get(r)
                if not t:
                    xl={'xlink:href':['http://a.b/c?d=e&f'],'xlink:type':['simple'],'xlink:role':['r'],'xlink:title':['A title'],'xlink:show':['new','replace','embed','other','none'],'xlink:actuate':['onRequest','onLoad','other','none']}
                    stypes['!'+r]=xl[r]; t='!'+r
                else: sval(t)
            else: t=sval(c.get('type'))
            o.append((n,t,1 if c.get('use')=='required' else 0))
        elif c.tag==X+'attributeGroup': o+=attrs(ag[c.get('ref')])
    return o
def need(t):
    if t in types: return
    if t in ct: dotype(t,ct[t])
    else: types[t]=dict(text=sval(t),attrs=[],model=None)
def dotype(n,e):
    types[n]=d=dict(text='-',attrs=[],model=None)
    sc=e.find(X+'simpleContent'); cc=e.find(X+'complexContent')
    if sc is not None or cc is not None:
        x=(sc if sc is not None else cc).find(X+'extension'); b=x.get('base')
        if b in ct or b in types:
            need(b); d['text']=types[b]['text']; d['attrs']=list(types[b]['attrs']); d['model']=types[b]['model']
        else: d['text']=sval(b)
        d['attrs']+=attrs(x); m=[c for c in body(x) if c.tag in(X+'sequence',X+'choice',X+'group')]
    else:
        d['attrs']=attrs(e); m=[c for c in body(e) if c.tag in(X+'sequence',X+'choice',X+'group')]
    if m: d['model']=expr(m[0])
for r in('score-partwise','score-timewise'):
    dotype(r,ge[r].find(X+'complexType'))
L=[]
def q(s): return s.replace('\\','\\\\').replace('\n','\\n').replace('\t','\\t').replace(' ','\\s')
for k,v in stypes.items(): L.append('S '+q(k)+' '+str(len(v))+' '+' '.join(q(x) if x else '\\e' for x in v))
for n,d in types.items():
    L.append(f"T {n} {q(d['text'])} {len(d['attrs'])} "+' '.join(f'{a} {q(t)} {r}' for a,t,r in d['attrs'])+' '+('M '+d['model'] if d['model'] else '-'))
out=[]
for l in L:
    while len(l)>12000: out.append(l[:12000]); l=l[12000:]
    out.append(l+'\n')
with open(V+'/sim/grammar.inc','w') as f:
    f.write('// generated by tools/grammar.py from Documents/musicxml.xsd\n')
    for l in out: f.write('R"~~('+l+')~~"\n')
els=set()
print(len(types),'types',len(stypes),'simple types')
