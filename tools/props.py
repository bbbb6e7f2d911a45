"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
A='Sourcecode/private/mx/'
I='Sourcecode/include/mx/api/'
DM=A+'api/DocumentManager.cpp'; DMH=I+'DocumentManager.h'
PD=A+'ezxml/src/private/private/PugiDoc.cpp'; PX=A+'ezxml/src/private/private/pugixml.cpp'
DOC=A+'core/Document.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,hook=None,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or ['public document-manager calls'],hook_needed=hook,
      **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))

p('C01','Concurrent document-store calls are linearizable',
 'Any number of threads may create, look up, read, write out and destroy documents through the shared document manager at the same time, and every call behaves as if the calls had run one after another in an order consistent with real time. A document id is issued once and never again, names exactly the document that was created under it from the moment the create call returns until it is destroyed, and every call on an id that is not live gives the documented "unknown id" answer (default score, null handle, nothing written).',
 ['schedules','histories'],'every interleaving of the memory accesses and lock operations of every history of manager calls from several threads',
 'The suite is single threaded: it never has two manager calls in flight, so no interleaving is ever exercised.',
 [DM,DMH],[('one mutex around the id counter and the id-to-document map',DM+' LOCK_DOCUMENT_MANAGER')],
 state=[('document map','id to shared document',DM),('next id','next document id to issue',DM)])
p('C02','Independent documents on separate threads do not race or interfere',
 'Threads that load, build, convert, read and write different documents at the same time never touch the same memory without synchronisation. Each thread gets exactly the result it would have got running alone.',
 ['schedules'],'every interleaving of loading, building, extracting and writing distinct documents, including the first use of every lookup table and lazily built value in the process',
 'No test runs two conversions concurrently, and a race usually gives the right answer on the few schedules a test machine produces.',
 [A+'impl/Converter.cpp',A+'impl/ScoreReader.cpp',A+'impl/ScoreWriter.cpp',A+'impl/MeasureReader.cpp',A+'core/Enums.cpp',PX,A+'api/SoundID.cpp'],
 [('conversion tables are immutable after static initialisation',A+'impl/Converter.cpp'),('readers and writers keep their state in per-call objects',A+'impl/')])
p('C03','One document may be read by many threads at once',
 'Any number of threads may read the same document at the same time (stream it out, walk its elements through const accessors, extract its score data, save it through the manager) without data races, and each of them sees exactly what a lone reader would see. This includes parts of the document that are materialised lazily on first read.',
 ['schedules'],'every interleaving of const operations of several threads on one document, from its very first read on',
 'Lazily allocated members are only ever touched from one thread in the suite; the locks that protect them could be removed without failing a test.',
 [A+'utility/Lock.h',A+'utility/JitAllocate.h',A+'core/elements/Note.cpp',A+'core/elements/MusicDataChoice.cpp',A+'core/elements/PartwiseMeasure.cpp',A+'core/elements/FullNoteGroup.cpp',A+'core/elements/FullNoteTypeChoice.cpp',DM],
 [('per-object lock around lazy allocation in const getters',A+'utility/Lock.h MX_LOCK')],observe=['const operations on a shared document handle','manager reads of the same id'])
p('C04','Every call completes: no deadlock, livelock or lock left behind',
 'From any reachable state every library call finishes (returning or throwing a standard exception) within a bounded amount of its own work, however its steps interleave with other calls and whatever failed before it: an operation that fails at any point leaves nothing locked, and an operation that waits for a source or sink holds up no other call, so that the source or sink may itself depend on the library. Once faults stop, all outstanding and new calls complete.',
 ['schedules','fault_sequences'],'every interleaving and every failure point (source, sink, allocation, bad input) of concurrent manager and document operations, including nested use of the manager from inside a create call',
 'A lock leaked on an error path, or lock-order inversion, needs a second call after (or during) a failure at a specific point.',
 [DM,A+'impl/PartWriter.cpp',A+'utility/Lock.h'],[('scoped locks released by unwinding',DM),('document creation does its conversion work before taking the manager lock, because conversion asks the manager for ids',DM)])
p('C05','Generated identifiers are unique for the life of the process',
 'Every identifier the library makes up (the unique numbers handed to clients and the instrument ids it generates while building documents) differs from every other one it made up earlier or concurrently in the same process, whichever threads asked and whatever failed in between.',
 ['schedules','histories'],'every interleaving of id requests and document builds, with failing builds in between',
 'Uniqueness across threads and failed calls is only visible over histories the suite does not run.',
 [DM,A+'impl/PartWriter.cpp'],[('counter incremented under the manager lock',DM+' getUniqueId')])
p('H01','Reading or saving a document never changes it',
 'Whatever sequence of reads, extractions and saves (to streams, to files, through a handle; successful or failed part-way) has been applied to a document, every later read, extraction or save gives the same answer as the first one would have. This holds for part-wise and for time-wise documents.',
 ['histories','fault_sequences'],'every history of read-only operations, including ones that fail at any point, on every document',
 'Tests read or write a document once; a read that leaves the document in a different state is only seen by a later operation.',
 [DM,DOC,A+'core/ScoreConversions.cpp'],[('extraction works on a converted copy or restores the document form',DM+' getData'),('streaming is const',A+'core/ElementInterface.cpp')])
p('H02','A document handle stays valid and intact after its id is destroyed',
 'A document obtained from the manager remains complete, unchanged and usable for as long as the caller keeps it, even if its id is destroyed, other documents come and go, or other threads use the manager meanwhile. Destroying an id ends only that id: all other documents and handles are unaffected.',
 ['histories','schedules'],'every history of create, obtain, destroy, use and release over several threads',
 'Tests do not use a handle after destroying its id, nor while other documents are being destroyed.',
 [DM,DMH],[('shared ownership of documents',DM+' getDocument/destroyDocument')])
p('H03','Memory is returned when documents are destroyed',
 'Once a document has been destroyed and every handle to it released, all memory allocated on its behalf has been freed. This holds for operations that failed too: repeating any history of operations, including failing ones, does not make the process grow.',
 ['histories','fault_sequences'],'every history of successful and failing operations, for a failure at every allocation, read or write',
 'Nothing in the suite measures memory, and most leaks sit on error paths that need a failure at one particular point.',
 [DM,DOC,PX,A+'core/elements/'],[('ownership by shared and unique pointers without cycles',A+'core/'),('parser buffers held by scoped owners',PX)])
p('H04','What is edited through a handle is what is read and saved from then on',
 'An edit of a document made through its handle shows in every later read and save of that document (score data, manager saves, handle saves), exactly as if the document had been edited before it was first read, and in no other document, including others loaded from the same source. An edit that fails because memory ran out leaves the document as it was. Earlier reads, saves, failures, format conversions and the destruction of other documents do not change this.',
 ['histories','fault_sequences','schedules'],'every interleaving of edits, reads, saves and failures over every document, and of threads that edit documents of their own',
 'The suite reads a document once after building it and does not edit what it has already read or saved.',
 [DM,DOC,A+'core/elements/',A+'core/ScoreConversions.cpp'],[('one document object behind the id and every handle',DM+' getDocument'),('nothing derived from the document is kept',DOC+' toXDoc')])
p('F01','A failed operation leaves no trace',
 'If a manager operation fails (unreadable or malformed input, a source or sink that fails, exhausted memory), it reports a standard exception that says what went wrong, and afterwards all other documents read and save exactly as before, every id keeps its meaning, no half-built document is reachable, and the same operation succeeds with the normal result when it is repeated without the fault.',
 ['fault_sequences','histories'],'every operation, failing at every point where it reads, writes or allocates, in every history',
 'The suite checks a few parse errors on a fresh document; it never fails an operation midway and then looks at the rest of the store.',
 [DM,DOC,PD],[('work on private objects, publish under the lock as the last step',DM+' create*'),('unwinding releases locks and buffers',DM)])
p('F02','Loading does not depend on how the bytes arrive',
 'A document loaded from a stream or file is the same document whatever the size and timing of the pieces in which the source delivers its bytes, whether or not the source can seek, whether reads are short or interrupted, and whether it comes from a file or from memory.',
 ['fault_sequences','schedules'],'every partition of the byte sequence into deliveries, seekable or not, with short and interrupted reads and arbitrary delays, concurrently with other work',
 'The suite loads from whole files and string streams only: the piecewise path of the reader is never executed.',
 [PD,PX,DM],[('read everything, then parse: seekable and piecewise readers',PX+' load_stream_data_seek/noseek')])
p('F03','A source that fails or ends early never yields a document',
 'If the source reports an error, or ends before the document is complete, the load fails with a standard exception that says what went wrong. A document built from only part of the data is never handed out.',
 ['fault_sequences'],'every offset at which the source fails with an error, throws, or ends, for stream and file sources',
 'No test has a source that fails or stops at a chosen offset.',
 [PD,PX,DM],[('stream state checked after each read',PX),('parser status turned into an exception',PD+' loadStream')])
p('F04','A save that reports success is complete; a failing sink is reported',
 'When a save to a file returns normally, the file holds the entire document; when a save to a stream returns normally and the stream is in a good state, the sink has received the entire document. If the sink cannot take all of it (disk full, device error, failing close, broken stream), the caller is told, by an exception or by the state of the stream it passed; short or interrupted writes that can be continued are continued.',
 ['fault_sequences'],'every offset and kind of sink failure, short write and interruption, including failures that only surface when the file is closed',
 'The suite writes to healthy streams and disks only.',
 [PD,PX,DM],[('buffered writer flushed at the end of a save',PX+' xml_buffered_writer'),('file stream state checked after closing',PD+' saveFile')])
p('F05','Running out of memory is survivable',
 'If any single memory allocation fails during any operation, or all allocations fail from some point on until the operation ends, the operation ends by returning or with a standard exception: the process does not crash, hang, corrupt memory or leak. Every other document keeps its exact content and every later operation works normally.',
 ['fault_sequences'],'every allocation of every operation as the failing one, on every document',
 'No test injects an allocation failure; each operation has thousands of failure points.',
 [DM,DOC,PX,PD,A+'core/'],[('bad_alloc unwinds through owners',A+'core/'),('parser reports out of memory as a status',PX)])
p('F06','Memory exhaustion never silently changes a result',
 'An operation that suffered an allocation failure either reports a failure or gives exactly the result it gives without it: a document, score or saved file that is silently missing something is never produced.',
 ['fault_sequences'],'every allocation of every operation as the failing one, on every document',
 'No test injects an allocation failure.',
 [DOC,PX,PD,A+'core/ElementInterface.cpp'],[('parser reports out of memory as a status',PX),('exceptions from containers and strings',A+'core/')])
p('F07','Damaged stored data is contained',
 'Loading stored bytes that have been damaged in any way (flipped bits, lost, repeated, reordered, zeroed or cut regions) either fails with a standard exception that says what went wrong or gives a document on which every further operation returns or throws a standard exception. It never crashes, hangs, touches memory it does not own, or affects other documents.',
 ['fault_sequences','inputs'],'every placement and combination of storage faults in every stored document, followed by every use of the result',
 'The suite has a handful of malformed inputs and does not use what a damaged load returns.',
 [PD,PX,DOC,A+'core/FromXElement.cpp',A+'impl/MeasureReader.cpp',A+'impl/ScoreReader.cpp',A+'core/ScoreConversions.cpp'],[('strict element parsing that reports unexpected content',A+'core/FromXElement.cpp'),('well-formedness enforced by the parser',PX)])
p('D01','An acknowledged save survives a crash; a torn one is recognised',
 'If the process dies at any moment after a save to a file returned, a new process loads the file back as the same document. If it dies during a save, what is left in the file is the complete new document, what was there before the save, or something that is rejected when loaded: it is never accepted as a smaller or mixed document.',
 ['crash_points','fault_sequences'],'every point of a save at which the process can die, for every document, with and without earlier content in the file',
 'Tests neither kill a process during a save nor reload in a fresh process.',
 [PD,PX,DM],[('file stream closed before the save returns',PD+' saveFile'),('an XML document is well-formed only when complete',PX)])
p('D02','What is saved is what a later process loads, over any number of generations',
 'Every document that can be loaded or built can be saved. A document saved (to a file, to a stream or through a handle) and loaded again by another process has the same score data as the document that was saved, and saving it again produces the same bytes. This holds along any chain of processes that load and save in turn, for documents loaded from MusicXML and for documents built from score data.',
 ['histories','crash_points','inputs'],'every chain of save, restart and load over every document, through every kind of source and sink',
 'Round trips in the suite happen inside one process, for sampled documents, once.',
 [DOC,PD,PX,A+'core/AttributesInterface.cpp',A+'core/elements/',A+'core/XsString.cpp'],[('parsing and streaming of every element are inverse to each other',A+'core/elements/'),('escaping on output',A+'core/XsString.cpp')])
p('T01','Today is the local calendar date of the moment of the call',
 'The date the library stamps as "today" is the local calendar date at some instant between the call and its return, in the process\'s time zone, whatever the clock reads: across midnight, month ends, leap days, year ends, daylight saving changes, clock jumps, and when several threads ask at the same time.',
 ['schedules','configurations'],'every clock value, time zone and clock jump, and every interleaving of threads asking for the date',
 'The suite runs at whatever time it is, in one time zone, from one thread.',
 [A+'core/Date.cpp',A+'api/EncodingData.cpp'],[('system clock converted to local calendar time',A+'core/Date.cpp Date::today')],observe=['date of today as returned by the API'])
p('T02','Results do not depend on clock, locale, or what the process did before',
 'The result of an operation is determined by its input alone: the same document gives the same score data and the same bytes whatever the clock and time zone, whatever the locale the host application has installed or switches to meanwhile, whatever memory previously held, and whatever other operations, successful or failed, ran before in the same process. Generated unique identifiers are the only exception.',
 ['configurations','histories'],'every environment (clock, time zone, host locale, memory contents) and change of it between and during operations, and every preceding history',
 'Tests run in the C locale, in the present, in fresh memory, and compare single results.',
 [A+'core/Decimals.cpp',A+'core/Integers.cpp',DOC,A+'core/Date.cpp',A+'impl/PartWriter.cpp'],[('numbers formatted and parsed by the library itself',A+'core/Decimals.cpp'),('members initialised in constructors',A+'core/elements/')])
p('E01','XML tree handles outliving their document fail cleanly',
 'Element and attribute handles and iterators of the XML layer do not keep their document alive; once the document has been released, at whatever moment and by whichever thread, every operation on such a handle reports null, gives an empty answer or throws a standard exception. It never touches the memory of the released document.',
 ['histories'],'every operation of every kind of handle after its document was released at every point of every history',
 'Tests keep the document alive while they use its elements.',
 [A+'ezxml/src/private/private/PugiElement.cpp',A+'ezxml/src/private/private/PugiAttribute.cpp',A+'ezxml/src/private/private/PugiElementIterImpl.cpp',A+'ezxml/src/private/private/PugiAttributeIterImpl.cpp'],
 [('weak reference to the document checked before use',A+'ezxml/src/private/private/PugiElement.cpp getIsNull')],observe=['XML DOM element, attribute and iterator operations'])
p('E02','An XML tree is what its edits have made of it',
 'Whatever sequence of edits, reads, saves and loads is applied to XML trees through the XML layer, each tree, with its XML declaration and document type, is exactly what the edits that returned have made of it: every element handle, attribute handle and iterator answers accordingly, a tree whose save (to a stream or a file) returned loads back as the same tree, an edit that fails (for instance because memory ran out) leaves the tree as it was, and edits of one tree never show in another, also when several threads work on trees of their own. Content that mixes text with elements, and text of nothing but white space beside processing instructions, is outside this statement.',
 ['histories','fault_sequences','schedules'],'every sequence of edits, saves and loads over every tree, with memory running out and file operations failing at every point of it, and every interleaving of threads that edit different trees',
 'The suite edits small trees once, on one thread, and never lets an edit fail.',
 [A+'ezxml/src/private/private/PugiElement.cpp',A+'ezxml/src/private/private/PugiAttribute.cpp',A+'ezxml/src/private/private/PugiElementIterImpl.cpp',A+'ezxml/src/private/private/PugiAttributeIterImpl.cpp',PX],
 [('edits applied to the tree behind the handle, undone when they fail',A+'ezxml/src/private/private/PugiElement.cpp'),('iterators that step over processing instructions',A+'ezxml/src/private/private/PugiElementIterImpl.cpp')],observe=['XML DOM element, attribute and iterator operations'])

# ---- pure functions of their input: no schedule, clock, fault or history for a simulator to decide
p('P01','Score data survives the round trip through MusicXML',
 'Score data built by a client, written as MusicXML and read back, carries the same musical content: notes, times, voices, staves, attributes, marks, spanners and layout.',
 ['inputs'],'every score-data value','Example-based round trips of chosen scores.',[A+'impl/',I],[('paired readers and writers',A+'impl/')])
p('P02','Importing a valid MusicXML file and exporting it loses nothing',
 'Every element, attribute and text of a valid MusicXML 3.0 document is present, in the same order, in the document the library writes after loading it.',
 ['inputs'],'every valid MusicXML document','The import suite covers the sample files in the repository.',[A+'core/elements/',A+'core/FromXElement.cpp'],[('one class per schema element',A+'core/elements/')])
p('P03','Everything the library writes is valid MusicXML',
 'Any document that can be built through the typed interfaces is written as schema-valid MusicXML.',
 ['inputs'],'every document that can be built','Tests compare selected outputs; none validates against the schema.',[A+'core/elements/'],[('class structure mirrors the schema',A+'core/')])
p('P04','Part-wise and time-wise conversion preserve the music',
 'Converting a document between its part-wise and time-wise forms keeps every part, measure and note, and converting back gives the original document.',
 ['inputs'],'every document','Two sample files.',[A+'core/ScoreConversions.cpp'],[('index-wise transposition of measures and parts',A+'core/ScoreConversions.cpp')])
p('P05','Constrained values never leave their permitted range',
 'A value type with a permitted range or lexical form holds a permitted value after every construction, assignment and parse.',
 ['inputs'],'every value and string','Boundary examples per type.',[A+'core/Integers.cpp',A+'core/Decimals.cpp',A+'core/XsToken.cpp'],[('clamping in setters',A+'core/Integers.cpp')])
p('P06','Enumeration names and values correspond one to one',
 'Every enumerated value converts to its MusicXML name and back to itself, and unknown names are reported.',
 ['inputs'],'every enumerated value','Already enumerated by the suite; finite.',[A+'core/Enums.cpp',A+'impl/Converter.cpp'],[('tables',A+'core/Enums.cpp')])
p('P07','Time positions are computed exactly',
 'Tick positions and durations extracted from a document equal the exact sums of its note, backup and forward durations scaled to the common division.',
 ['inputs'],'every sequence of notes, chords, backups, forwards and division changes','Sample measures.',[A+'impl/MeasureReader.cpp',A+'impl/Cursor.cpp',A+'impl/LcmGcd.cpp'],[('cursor arithmetic',A+'impl/Cursor.cpp')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
if s:
    for x in P: jsonschema.validate(x,s)
print(len(P))
