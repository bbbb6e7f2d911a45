"""Writes /verif/MANIFEST.json."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
import check
NOTE={
'C01':'linearizability of recorded call histories against a sequential id-to-document model, plus happens-before race, deadlock and memory checks on every step',
'C02':'happens-before race detection on every memory access of independent workloads, and each result compared with the result of running alone in a fresh process',
'C03':'race detection and answer comparison for several readers of one document from its first read on',
'C04':'no thread left blocked, every call ends within a step budget, all locks free after any failure',
'C05':'all identifiers handed out in a history are pairwise distinct',
'H01':'every read of a history equals the first read of a fresh document',
'H02':'handles and other documents keep their content across destroys; freed memory is poisoned',
'H03':'live heap blocks and descriptors return to the same level when a history is repeated',
'F01':'after any failed call all documents, ids and later calls behave as in a run without it',
'F02':'result of loading compared with the result of loading the same bytes in one piece',
'F03':'a load whose source failed or ended early must not return a document (or returns the complete one)',
'F04':'bytes that reached the sink compared with the whole document whenever success is reported',
'F05':'allocation failures placed at call sites of every operation; no crash, hang, corruption, leak; other documents intact',
'F06':'an operation that returns normally despite an allocation failure must give the complete result',
'F07':'damaged stored bytes: standard exception or a document on which all operations are safe (every access checked)',
'D01':'process killed at seeded points of a save; a new process inspects and reloads the file',
'D02':'chains of processes that save and load; bytes and score data compared per generation',
'T01':'date compared with an independent calendar over the clock readings made during the call',
'T02':'results under seeded clock, time zone, host locale, heap contents and histories compared with a pristine process',
'H04':'edits through document handles between reads, saves and failures; every later answer compared with that of a document edited before it was first read',
'E02':'histories of edits, saves and loads of XML trees compared with a model tree after each step; allocation failures inside edits; threads on different trees',
'E01':'operations on XML handles after release of their document: every memory access checked against freed memory',
}
tech='deterministic simulation: seeded scheduler and fault injection over the real library; '
PURE={'P01':'score data in, score data out','P02':'document in, document out','P03':'document in, text out','P04':'document in, document out','P05':'value in, value out','P06':'finite table lookups','P07':'arithmetic on document content'}
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[dict(property=p['id'],quick_cmd=f'python3 tools/check.py {p["id"]}',thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {p["id"]}',technique=tech+NOTE[p['id']],level='exploration',
  level_note='Seeded search over schedules, faults and histories of the real code; each run is exactly repeatable and every violation is confirmed by replay. A clean run is evidence over the runs it counts, not a proof. Assumes sequentially consistent execution between races, and that libstdc++/libc behave as documented.') for p in props if p['id'] in check.CATS]
na=[dict(property=p['id'],reason=f'A pure function of its input ({PURE[p["id"]]}): no schedule, clock, fault, crash or history can change the answer, so there is nothing for a simulator to decide; generating inputs would be property-based testing, not simulation.') for p in props if p['id'] not in check.CATS]
json.dump(dict(version=1,setup_cmd='python3 tools/build.py',checks=checks,not_applicable=na,notes='No hooks in /repo: the simulator takes over at link level (allocator, threads, clock, file I/O) and through the streams the library is given. Replay a violation with: python3 tools/check.py --replay FILE'),open(V+'/MANIFEST.json','w'),indent=1)
