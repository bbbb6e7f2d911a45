#!/usr/bin/env python3
"""Decides one property by seeded simulation of the real library.

  check.py <property>            explore (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --replay FILE         replay a violation exactly; exit 1 if it still happens

exit 0: the property held on everything simulated; exit 1 + VIOLATION line: it was broken."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, queue, glob, struct
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
import build as B
T0=time.time()
W=int(os.environ.get('MX_WORKERS','8'))

# which kinds of wrong behaviour decide which property
CATS=dict(
 C01='race memory crash deadlock hang unlock history id content handle unexpected unique exception',
 C02='race memory crash deadlock hang content handle unexpected date exception unlock',
 C03='race memory crash deadlock hang content handle unexpected stale exception unlock',
 C04='deadlock hang unlock crash exception',
 C05='unique race deadlock crash memory unlock',
 H01='content handle unexpected history memory crash exception',
 H02='content handle unexpected memory race crash history id exception',
 H03='leak',
 F01='mute content history id accepted exception unexpected handle partial unlock deadlock hang memory crash',
 F02='content unexpected accepted partial hang crash memory handle exception',
 F03='mute accepted partial exception hang crash memory',
 F04='lostsave content handle exception hang crash memory unexpected',
 F05='crash hang memory leak content unexpected history handle deadlock unlock exception race',
 F06='silent partial content',
 F07='mute crash hang memory exception content race deadlock unlock',
 D01='torn lostsave content reload',
 D02='reload fixpoint content handle unexpected',
 T01='date race',
 T02='content unexpected history reload handle fixpoint',
 H04='content handle silent unexpected memory crash exception race hang',
 E01='memory crash exception stale race hang',
 E02='tree silent memory crash exception unexpected race hang')
# how many documents the runs draw from, relative to the properties that are about schedules
POOL=dict(D02=2,F04=2,T02=2,H01=2,F02=2,F03=2,F07=2)
# after how many runs per document of the pool a worker draws other documents
TURN=dict(D02=2,H01=3,T02=3,F04=4,F02=6,F03=6,F07=6,E01=6,E02=6,H04=12)
# seconds of simulation per worker
QUICK=float(os.environ.get('MX_QUICK','40')); THOROUGH=float(os.environ.get('MX_THOROUGH','600'))

def known():
    out=[]
    p=V+'/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('finding: '): out.append(json.loads(l[9:]))
    return out
def matches(k,prop,o):
    return k['property']==prop and k.get('cat') in (None,o['cat']) and re.search(k.get('msg','.*'),o['msg'],re.S) and re.search(k.get('stack','.*'),o['stack'],re.S)

def run_file(exe,path,times,scratch,timeout=150):
    try: r=subprocess.run([exe,'run',path,'--times',str(times),'--scratch',scratch,'--corpus',V+'/corpus'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=timeout,errors='replace')
    except subprocess.TimeoutExpired: return []
    out=[]
    for l in r.stdout.splitlines():
        try: out.append(json.loads(l))
        except ValueError: pass
    return out
def same(a,b): return a['kind']==b['kind'] and a['cat']==b['cat'] and a['hash']==b['hash']

def replay(path):
    exe=B.build(); scratch=tempfile.mkdtemp(prefix='mxsim-'); want=None
    try:
        for l in open(path):
            if l.startswith('# expect '): want=json.loads(l[9:])
        r=run_file(exe,path,2,scratch)
        for o in r: print(json.dumps({k:o[k] for k in ('kind','cat','msg','stack','hash')},indent=1))
        prop=re.search(r'^scenario (\w+)',open(path).read(),re.M).group(1)
        if len(r)==2 and same(r[0],r[1]) and r[0]['kind']!='none':
            print('same execution as recorded' if want and want['hash']==r[0]['hash'] else 'execution differs from the recorded one (the code has changed)' if want else '')
            print(f'VIOLATION property={prop} replay={path}'); return 1
        print('no violation'); return 0
    finally: shutil.rmtree(scratch,ignore_errors=True)

def write_replay(path,scen,o,prop,note):
    with open(path,'w') as f:
        f.write(f'# {note}\n# {o["cat"]}: '+o['msg'].replace('\n','~')+'\n# stack: '+o['stack']+'\n')
        if o.get('other'): f.write('# other access: '+o['other']+'\n')
        f.write('# expect '+json.dumps(dict(kind=o['kind'],cat=o['cat'],hash=o['hash']))+f'\n# replay: python3 tools/check.py --replay {path}\n')
        f.write(scen)

def main(prop):
    seed=int(os.environ.get('VERIF_SEED','1') or 1); tier='thorough' if os.environ.get('VERIF_TIER')=='thorough' else 'quick'
    T=THOROUGH if tier=='thorough' else QUICK
    exe=B.build(); tb=time.time()-T0
    scratch=tempfile.mkdtemp(prefix='mxsim-'); os.makedirs(V+'/evidence',exist_ok=True)
    print(f'property={prop} VERIF_SEED={seed} tier={tier} build={tb:.1f}s',flush=True)
    cats=CATS[prop].split(); q=queue.Queue(); procs=[]; stats=[]; nondet=[]; other=[]; bad=[]; done=0; kf=known(); suppressed={}; weird=[]; confirmed=None
    # directed scenarios (shapes that once mattered), before the random ones
    directed=0
    def gate(scen,exact,src):
        """A violation counts only if it happens identically twice in a fresh process."""
        p=f'{scratch}/cand{len(weird)}_{len(bad)}.scn'; open(p,'w').write(scen); r=run_file(exe,p,2,scratch)
        if len(r)==2 and same(r[0],r[1]) and r[0]['kind']!='none' and r[0]['cat'] in cats: return p,r[0]
        weird.append(dict(source=src,runs=[{k:x[k] for k in('kind','cat','msg','hash')} for x in r],scenario=scen)); return None
    try:
        for f in sorted(glob.glob(V+f'/regress/{prop}_*.scn')):
            directed+=1; r=run_file(exe,f,1,scratch)
            if r and r[0]['kind']!='none' and r[0]['cat'] in cats:
                k=[x for x in kf if matches(x,prop,r[0])]
                if k: suppressed.setdefault(k[0]['what'],0); suppressed[k[0]['what']]+=1; continue
                g=gate(open(f).read(),None,f)
                if g: confirmed=g; break
        if not confirmed:
            for k in range(W):
                cmd=[exe,'explore','--prop',prop,'--base',str(seed),'--from',str(k),'--stride',str(W),'--cpu',str(k),'--time',str(T),'--cats',','.join(cats),'--hashes',f'{scratch}/h{k}','--recheck','20','--deep','1' if tier=='thorough' else '0','--pool',str(40*POOL.get(prop,1)),'--epoch',str(40*POOL.get(prop,1)*TURN.get(prop,8)*(2 if tier=='thorough' else 1)),'--scratch',scratch,'--corpus',V+'/corpus','--maxbad','4']
                if os.environ.get('MX_RUNS'): cmd+=['--runs',os.environ['MX_RUNS']]
                pr=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors='replace'); procs.append(pr)
                def pump(pr=pr,k=k):
                    for l in pr.stdout:
                        try: q.put((k,json.loads(l)))
                        except ValueError: q.put((k,dict(ev='garbage',text=l[:300])))
                    q.put((k,None))
                threading.Thread(target=pump,daemon=True).start()
            end=time.time()+T+120; dead=0
            while done<W and time.time()<end:
                try: k,j=q.get(timeout=1)
                except queue.Empty: continue
                if j is None:
                    done+=1; continue
                if j['ev']=='stats': stats.append(j)
                elif j['ev']=='nondet': nondet.append(dict(i=j['i'],a=j['a']['kind'],b=j['b']['kind'],scenario=j['scen']))
                elif j['ev']=='other': other.append(dict(i=j['i'],cat=j['o']['cat'],msg=j['o']['msg'][:400]))
                elif j['ev']=='bad':
                    bad.append(j); o=j['o']; m=[x for x in kf if matches(x,prop,o)]
                    if m: suppressed[m[0]['what']]=suppressed.get(m[0]['what'],0)+1; continue
                    if len(weird)<6:
                        g=gate(j['scen'],j['exact'],f'seed {seed} run {j["i"]}')
                        if g: confirmed=g; break
            for p in procs: p.kill()
        viol=0
        for w in suppressed: print(f'KNOWN-FINDING: property={prop} {w}')
        mini=None
        if confirmed:
            viol=1; src,o=confirmed; out=f'{V}/evidence/replay-{prop}-{seed}.scn'; tmp=f'{scratch}/min.scn'; note='as found'
            try:
                r=subprocess.run([exe,'minimise',src,tmp,'--time','120' if tier=='thorough' else '30','--scratch',scratch,'--corpus',V+'/corpus'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=300,errors='replace')
                rr=run_file(exe,tmp,2,scratch)
                if len(rr)==2 and same(rr[0],rr[1]) and rr[0]['kind']!='none' and rr[0]['cat']==o['cat']: mini=open(tmp).read(); o=rr[0]; note='minimised (%s attempts)'%json.loads(r.stdout.splitlines()[-1]).get('tries')
            except (subprocess.TimeoutExpired,OSError,ValueError,IndexError): pass
            write_replay(out,mini or open(src).read(),o,prop,f'{prop}: violation found with VERIF_SEED={seed}, {note}')
            print(f'{o["cat"]}: {o["msg"]}\n  at {o["stack"][:600]}'+(f'\n  other access at {o["other"]}' if o.get('other') else '')); print((mini or open(src).read()).strip())
            print(f'VIOLATION property={prop} replay={out}',flush=True)
        hs=set(); 
        for k in range(W):
            try: d=open(f'{scratch}/h{k}','rb').read(); hs.update(struct.unpack(f'<{len(d)//8}Q',d))
            except OSError: pass
        S=lambda n: sum(s[n] for s in stats); wall=time.time()-T0; simwall=max([s['wall'] for s in stats] or [0])
        faults={}
        for s in stats:
            for a,b in s['faults'].items(): faults[a]=faults.get(a,0)+b
        runs=S('runs'); samples=[s['sample'] for s in stats if s['sample']][:3]
        if mini: samples.insert(0,mini)
        cov=dict(evaluations=runs+directed,distinct_nontrivial=len(hs),
          rule='One evaluation is one simulated scenario: one or more process lives of the real library under the simulator, every thread choice, fault, clock reading and input decided by one seed. Distinct: the digests of complete executions (events, results, thread switches, faults fired, answers) that differ from all others of this run. Every scenario makes library calls on real documents, so none is trivial.',
          samples=samples or ['(no run finished)'],directed_scenarios=directed,process_lives=S('lives'),library_calls=S('ops'),memory_access_steps=S('steps'),thread_switches=S('switches'),conflicting_accesses=S('conflicts'),allocations=S('allocs'),clock_readings=S('clockReads'),
          distinct_schedules=S('schedules'),multithreaded_runs=S('mtRuns'),runs_with_faults=S('faultRuns'),faults_fired={a:b for a,b in faults.items() if b},allocation_failure_sites=dict(workers=[dict(call_stacks_failed=s.get('oomSites',0),call_stacks_recorded=s.get('oomSitesKnown',0),call_sites_failed_under=s.get('oomCalls',0),call_sites_recorded=s.get('oomCallsKnown',0)) for s in stats],rule='per worker: distinct call stacks (and the call sites on them) that allocate in a fault-free run of the documents it drew, and how many of them had an allocation fail under them; recorded sites also count documents whose turn did not come'),fault_kinds_not_fired=sorted(a for a,b in faults.items() if not b),
          simulated_seconds=round(S('simNs')/1e9,3),runs_per_hour=int(runs*3600/simwall) if simwall else 0,seeds=dict(base=seed,first=0,count=runs),seeds_per_hour=int(runs*3600/simwall) if simwall else 0,workers=W,
          determinism_rechecks=S('rechecked'),nondeterministic=len(nondet),nondeterministic_runs=nondet[:3],unconfirmed=weird[:3],violations_of_other_properties=other[:8],known_findings_seen=suppressed,
          real_components=['mx::api','mx::impl','mx::core','ezxml','pugixml','libstdc++ containers, streams and iostreams','kernel file system (behind the I/O seam)'],
          stub_components=['thread scheduler','mutex, rwlock, condition variable, once, static-init guards','heap allocator','clock, sleep, local time storage','stream sources and sinks','read/write/seek/close results (faults)','LC_NUMERIC of the C library','process crash and restart'])
        ev=dict(property=prop,tier=tier,seed=seed,level='exploration',coverage=cov,assumptions=['the simulator runs threads sequentially consistently: weak-memory effects appear only as the data races it reports','libstdc++ and libc behave as documented; code inside libc is not instrumented','reference answers are computed by the same tree, fault free, in one thread of a fresh process'],wall_s=round(wall,1),violations=viol)
        json.dump(ev,open(f'{V}/evidence/{prop}.json','w'),indent=1)
        print(f'{prop}: {runs} runs, {len(hs)} distinct, {S("steps")} steps, faults fired {sum(faults.values())}, rechecked {S("rechecked")} (nondeterministic {len(nondet)}), unconfirmed {len(weird)}, other {len(other)}, {wall:.0f}s')
        return viol
    finally:
        for p in procs:
            if p.poll() is None: p.kill()
        shutil.rmtree(scratch,ignore_errors=True)
if __name__=='__main__':
    if len(sys.argv)<2: sys.exit(2)
    sys.exit(replay(sys.argv[2]) if sys.argv[1]=='--replay' else main(sys.argv[1]))
