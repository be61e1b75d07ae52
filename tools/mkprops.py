import json
CT='blocking_cache/BlockingCacheCtrlRTL.py'; DP='blocking_cache/BlockingCacheDpathRTL.py'; RT='blocking_cache/BlockingCacheRTL.py'; RM='blocking_cache/README.md'
def P(id,title,stmt,over,text,why,files,mech,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a)
GEOM='every supported geometry (64 to 512-bit lines, 32 to 128-bit requests, 1 or 2 ways, any number of sets, address and opaque widths)'
ENV='every pattern of stalls on both outgoing channels, every memory latency and every spacing of requests'
L=[]
L.append(P('C01','A core sees one flat memory through the cache',
 'For every history of aligned reads, writes, atomic operations, INV and FLUSH sent by one core to one cache that alone uses the memory, every read and atomic operation returns the value most recently stored to each of its bytes (or the initial memory contents), as if the cache were not there. After a FLUSH is answered, main memory holds exactly that flat image.',
 ['histories','inputs','configurations','schedules'],'Every request history, data and address, over '+GEOM+' and '+ENV+'.',
 'The tests run a fixed list of directed sequences plus short Hypothesis read/write runs on a few geometries; the value depends on the combination of line state (absent, clean, dirty, invalidated with dirty words, replaced) with the order of operations, sizes and stalls, which no finite list covers.',
 [CT,DP,RT],[('pipeline control and hit/miss/evict FSM',CT),('data array, replicator, write mask and refill path',DP),('tag and dirty-word update','blocking_cache/units/UpdateTagArrayUnit.py'),('miss status holding register','blocking_cache/units/MSHR.py')],
 [('data array','cached words',DP),('tag array','valid, per-word dirty bits and tag of every line',DP)]))
L.append(P('C02','One response per request, in order, with the request\'s type, opaque and length',
 'Every accepted request gets exactly one response, responses come in request order, and each carries the opaque tag, type and length of its request. No response appears without a request, and write and control responses carry zero data.',
 ['histories','schedules','inputs'],'Every history with arbitrary (also repeated) opaque values and '+ENV+'.',
 'Tests check opaques that are mostly zero or sequential and mostly without back-pressure; loss, duplication or mix-up of a response appears only under particular stall cycles in particular pipeline states.',
 [CT,DP],[('M2 stage response message',DP),('valid/stall chain of the three stages',CT)]))
L.append(P('C03','The hit indicator is that of a true-LRU cache of the configured geometry',
 'The test field of a read or write response is 1 exactly when the line was valid in a set-associative cache of the configured size, line width and ways with true least-recently-used replacement, and 0 otherwise; atomic, INV and FLUSH responses carry 0. Reads and writes make a line most recently used, an atomic operation removes its line and makes the freed way the next victim, INV makes every line invalid, and FLUSH keeps every line valid.',
 ['histories','configurations'],'Every history on '+GEOM+'.',
 'The tests look at hit bits in short directed sequences; replacement depends on the full access history of a set.',
 [CT,'blocking_cache/units/ReplacementPolicy.py','blocking_cache/CacheDerivedParams.py'],[('hit detection and way choice',CT),('use bits','blocking_cache/units/ReplacementPolicy.py'),('tag compare',DP)]))
L.append(P('C04','Write-backs carry exactly the words stored and nothing else',
 'Every line write-back is aligned to the line, its write mask marks exactly the 32-bit words the core stored since the line was last written back or fetched fresh, and each marked word carries its current value. No word the core did not store is ever written to memory, and no stored word is dropped.',
 ['histories','configurations'],'Every history of reads, stores of any size, atomic operations, INV and FLUSH, on '+GEOM+'.',
 'The directed tests check memory contents, not masks, and a single cache hides a wrong mask: writing back a clean word is invisible until another agent has changed it.',
 [CT,DP,'blocking_cache/units/UpdateTagArrayUnit.py','blocking_cache/units/MSHR.py'],[('dirty mask generation','blocking_cache/units/UpdateTagArrayUnit.py'),('write mask of the memory request',DP),('dirty bits carried over a miss','blocking_cache/units/MSHR.py')],
 [('dirty bits','one per 32-bit word of every line',DP)]))
L.append(P('C05','Memory traffic is exactly that of a write-back, write-allocate cache',
 'A hit causes no memory request; a miss causes exactly one read of the aligned line, preceded by exactly one write-back if the replaced line has dirty words; a clean line is never written back. An atomic operation writes its line back first if dirty and then sends the operation itself to memory with its word address and operand; INV causes no memory request, and FLUSH causes exactly one write-back per line with dirty words. The memory requests of a read, write or atomic operation carry the opaque tag of its request.',
 ['histories','configurations','schedules'],'Every history over '+GEOM+' and '+ENV+'.',
 'Tests check returned data; redundant, missing or misdirected traffic is mostly invisible in returned data with a single-agent memory.',
 [CT,DP,RM],[('memory request generation in the M2 stage',CT),('memory request message',DP)]))
L.append(P('C06','FLUSH writes back every dirty word and keeps the cache usable',
 'When a FLUSH is answered, every dirty word of every line (also of lines invalidated while dirty) has been written to memory exactly once and no other word has. Valid lines stay valid and clean with their data, so a following read hits and a following FLUSH without new stores writes nothing.',
 ['histories','configurations','schedules'],'Every cache state reachable before the FLUSH, from empty to completely dirty, over '+GEOM+' and '+ENV+'.',
 'Tests flush a handful of lines in small caches; the walk covers every set and way and can lose, repeat or misplace a line only in particular states or stall patterns.',
 [CT,DP,RM],[('flush walk over sets and ways',CT),('counter','blocking_cache/units/counters.py'),('clearing of dirty bits','blocking_cache/units/UpdateTagArrayUnit.py')]))
L.append(P('C07','INV makes later reads see memory, without losing the core\'s own stores',
 'After an INV is answered, the next access to any line fetches it from memory, so words another agent wrote become visible. Words this core stored and had not written back survive the INV: the fetch keeps them, reads return them, and they are still written back by a later replacement, atomic operation or FLUSH.',
 ['histories','schedules','configurations'],'Every interleaving of one core\'s history with another agent\'s writes to words that core does not store, over '+GEOM+' and '+ENV+'.',
 'The INV tests are a few directed sequences; the merge depends on which words of which lines are dirty, the kind of access that refetches the line, and evictions in between.',
 [CT,DP,RM],[('INV walk clearing valid bits',CT),('word-wise merge of refill data',DP)]))
L.append(P('C08','Atomic operations are performed by memory, exactly once, on current data',
 'Every atomic operation is sent to main memory exactly once with its own type, word address and operand; before that, dirty words of the cached line are written back, and its response returns the word\'s old value in memory. Afterwards the line is not cached, so the next read of it sees the value memory holds.',
 ['histories','inputs','schedules','configurations'],'Every atomic type and operand, in every line state (absent, clean, dirty, invalidated while dirty, full set), with another agent writing the word, over '+ENV+'.',
 'The AMO tests use fixed addresses and a few states; a stale copy or a repeated operation needs a particular line state and history.',
 [CT,DP,RM],[('AMO path: evict, forward, invalidate',CT),('AMO request message',DP)]))
L.append(P('C09','Results do not depend on timing, idle-bus values or power-on contents',
 'For a given history of requests and initial memory, the sequence of responses and the sequence of memory requests are the same under every stall pattern, memory latency, spacing of requests, value on idle message buses and power-on content of registers and SRAMs.',
 ['schedules','histories','configurations'],'Pairs of environments for the same random history, over '+GEOM+'.',
 'Tests fix a few stall and latency settings, always drive zeros on idle buses and always start from a zeroed simulator.',
 [CT,DP,'blocking_cache/units/StallEngine.py','sram/SramPRTL.py'],[('stall logic of each stage',CT),('holding SRAM output over a stall','blocking_cache/units/StallEngine.py')]))
L.append(P('C10','No deadlock: every accepted request is answered and new ones are taken',
 'As long as memory answers and the two outgoing channels are ready together again and again, every offered request is eventually accepted and every accepted one answered. The number of cycles in which both channels are ready and memory owes nothing that an operation needs is bounded by the size of the cache.',
 ['schedules','histories','configurations'],'Every history including reset, over '+GEOM+' and stall patterns as sparse as one joint ready cycle in 64.',
 'Tests time out only on the schedules they run; a lost wake-up needs a stall in one particular cycle of one particular operation.',
 [CT],[('FSM and stage stalls',CT),('ready of the two incoming channels',CT)]))
L.append(P('C11','The handshake protocol is respected on all four channels in every cycle',
 'The cache never asserts enable on an outgoing channel whose ready is low, its two ready outputs do not depend on the enables of the same cycle, and message bits mean nothing while enable is low. No message is lost, repeated or changed by a stall, and nothing is sent without an accepted request that calls for it.',
 ['schedules','histories'],'Every cycle of every history, with every ready pattern and arbitrary values on idle buses.',
 'Tests use well-behaved sources and sinks with idle buses at zero.',
 [CT,RT,'blocking_cache/cacheStructs.py'],[('enable/ready logic of the four interfaces',CT)]))
L.append(P('C12','Reset empties the cache at any moment and from any state',
 'After reset is applied, at power-on or in any cycle of any operation, for one cycle or more, the cache sends no left-over response or memory request, no line hits until it has been fetched again, and nothing stored before the reset is written back. From then on it behaves like a fresh cache over the present memory contents.',
 ['crash_points','histories','configurations'],'Random power-on contents and one to four resets at arbitrary cycles (idle, initialisation, miss, write-back, INV, FLUSH, back to back).',
 'Tests reset once, before the first request, on a zeroed simulator.',
 [CT,DP],[('initialisation walk clearing tags',CT),('reset values of registers','blocking_cache/units/registers.py')]))
L.append(P('C13','Data-race-free programs on several caches see sequentially consistent memory',
 'When several cores, each with its own cache over one memory, hand data over by FLUSH on the writer, synchronisation, then INV on the reader, every read returns the last value written before it in synchronisation order, even when different cores store different words of the same line at the same time. Atomic operations of several cores on the same word each take effect exactly once in some order.',
 ['programs','schedules','histories'],'Random data-race-free programs on two to four cores with false sharing, arbitrary interleavings, stalls and latencies.',
 'The multi-cache tests are a few directed two-core and four-core sequences.',
 [CT,DP,'blocking_cache/units/UpdateTagArrayUnit.py'],[('word-granular dirty bits',DP),('INV merge and FLUSH walk',CT)]))
L.append(P('C14','WRITE_INIT places data and tag in the cache without memory traffic',
 'After reset, write-init requests store data of any size into lines of distinct sets without any memory request, answering with test 0; the initialised words then hit, read back as initialised or as later overwritten, and a FLUSH writes back exactly-valued words and every overwritten word. On a two-way cache this holds for the first request after reset; on a direct-mapped one also with reads and writes of other sets before or between them.',
 ['inputs','histories','configurations'],'Every address, size and data of the initialised words, and every following history of reads and writes inside them, over '+ENV+'.',
 'Init is used in tests only to preload one or two lines at low addresses.',
 [CT,DP],[('write-init path of the M0/M1 stages',CT)]))
L.append(P('C15','A three-byte-length store writes a zero-extended double word',
 'With 32-bit requests, a store whose length field is 3 writes its 32-bit data to the addressed word and zero to the following word of the double word, in one operation, and marks both words dirty. Reads, write-backs, INV merges, evictions and FLUSH treat both words like any other stored words.',
 ['inputs','histories','configurations'],'Every aligned double word and history mixing such stores with 1, 2 and 4-byte accesses, over '+ENV+'.',
 'Tests contain a few directed cases on one line size and do not look at the write mask of the second word.',
 [CT,DP,'blocking_cache/units/UpdateTagArrayUnit.py'],[('zero-extended replication of store data',DP),('mask for the double word',DP)]))
L.append(P('C16','Two-cycle pipelined hits; bounded miss, AMO, INV and FLUSH times',
 'With both outgoing channels always ready and a memory latency of L cycles, a hit is answered two cycles after acceptance; a miss within L+6 cycles and an atomic operation within L+5, each plus one when a write-back precedes it; INV within lines+3 and FLUSH within lines+3+w*(L+3) for w write-backs. A read hit or a write hit on dirty words lets the next request in one cycle later, a write hit on clean words two cycles later, any other operation no later than the cycle before its response; after reset the first request is accepted within as many cycles as there are lines.',
 ['histories','configurations'],'Every history without back-pressure at fixed latency, on '+GEOM+'.',
 'Tests check data, not cycles; an extra stall cycle in some state goes unnoticed.',
 [CT],[('three-stage pipeline and stalls',CT)]))
L.append(P('C17','The generated Verilog and the PyMTL simulation agree in every cycle',
 'Driven with the same inputs from reset, the Verilog translated from the cache and the PyMTL simulation of it show the same enables, readies and valid messages on all ports in every cycle.',
 ['histories','schedules','configurations'],'Every input sequence at the pins, on '+GEOM+'.',
 'Tests run either back end on the same directed list and compare each with expected responses, not with each other cycle by cycle.',
 [RT,CT,DP,'sram/SramPRTL.py'],[('translatable update blocks',CT)]))
L.append(P('C18','The functional model is an LRU cache over a flat memory',
 'For every sequence of requests of any type, size and aligned 32-bit address, the functional model records each request and a response whose data, type, opaque, length and hit indicator are those of a set-associative true-LRU cache over a byte-addressed flat memory starting from the given image. Atomic operations return the old word and drop the line, INV empties the cache and FLUSH changes nothing a read can see.',
 ['inputs','histories','configurations'],'Every request list, initial image and geometry.',
 'The model is the oracle of the other tests; its own tests are a short directed list.',
 ['blocking_cache/BlockingCacheFL.py'],[('hit tracking and LRU','blocking_cache/BlockingCacheFL.py'),('memory image and AMO functions','blocking_cache/BlockingCacheFL.py')]))
L.append(P('C19','The SRAM reads back what was written, bit by bit under the write mask',
 'For every sequence of port operations on an SRAM of any shape, a read returns in the next cycle, for every bit, the value last written to that bit of that word under its write-enable bit. Cycles without valid, and reads, change nothing; a disabled output is zero.',
 ['inputs','histories','configurations'],'Every pin sequence on SRAMs of 1 to 128 bits and 2 to 64 words.',
 'The SRAM tests write and read back a few full words.',
 ['sram/SramGenericPRTL.py','sram/SramPRTL.py'],[('masked write and registered read','sram/SramGenericPRTL.py')]))
L.append(P('C20','Every access size and offset reaches exactly its own bytes',
 'For every line and request width, a read of 1, 2, 4, ... bytes at any naturally aligned offset returns exactly those bytes, zero-extended, and a store changes exactly those bytes and no neighbour. This holds whether the line is absent, clean, dirty or merged after INV.',
 ['inputs','configurations','histories'],'Every size and offset of a line, on '+GEOM+'.',
 'Sub-word tests cover a few offsets of a few widths.',
 [DP,'blocking_cache/units/arithmetics.py','blocking_cache/units/muxes.py'],[('data replicator, byte shift and size mask','blocking_cache/units/arithmetics.py'),('read word selection','blocking_cache/units/muxes.py')]))
L.append(P('C21','The whole capacity is usable and no two addresses are confused',
 'A cache of N bytes and W ways holds every line of any working set that puts at most W lines in each set: once loaded they all hit and keep their own data, and one line more in a set replaces exactly the least recently used. Addresses differing in any single bit above the byte offset are different words.',
 ['configurations','inputs'],'Every geometry, with random tags over the whole address range.',
 'Tests use small caches and low addresses; an index or tag bit dropped at some geometry is invisible there.',
 ['blocking_cache/CacheDerivedParams.py',DP,CT],[('derived bit widths','blocking_cache/CacheDerivedParams.py'),('address split',DP)]))
L.append(P('C22','Memory messages pack, unpack, compare and print without losing a bit',
 'For every field width, request and response messages have the documented field order and widths, pack to and unpack from bits without loss, compare unequal when any field differs, and print each field so that it can be read back (data left blank where the type carries none). Type codes and their names match the documented encoding.',
 ['inputs','configurations'],'Every message shape (with and without write mask) and field value.',
 'The message tests build one shape and print it.',
 ['mem_ifcs/MemMsg.py'],[('message class factory','mem_ifcs/MemMsg.py'),('type codes','mem_ifcs/MemMsg.py')]))
L.append(P('C23','The cache blocks until memory has acknowledged what it was sent',
 'No request is accepted and none is answered while a memory request is unanswered; at most a write-back and the read or atomic operation following it are outstanding together. During a FLUSH each write-back is acknowledged before the next is sent, and the FLUSH is answered only after the last acknowledgement.',
 ['schedules','histories'],'Every history against memories with arbitrary, varying latencies and stalls.',
 'Tests run with a latency of a few cycles, in which an early answer is not visible in data.',
 [CT,RM],[('waiting states of the FSM',CT)]))
L.append(P('C24','The translation script writes the cache its options ask for',
 'For every combination of size, associativity, line, request, address and opaque options in the supported ranges, the Verilog file written by the command-line script, in the directory --output-dir names (else the working directory), is a cache of exactly that geometry and port widths that behaves as documented; with SRAM replacement it consists of the wrapped macros of the right widths and depths and behaves the same.',
 ['configurations','histories'],'Option combinations, and random histories on the module that is written.',
 'Tests never run the script.',
 ['blocking_cache/translate.py','sram/SramPRTL.py','sram/brg_gf14_sram_generic_synopsys.v'],[('option parsing and construction','blocking_cache/translate.py'),('SRAM replacement','blocking_cache/translate.py')]))
L.append(P('C25','SRAM output is used only in the cycle after a read',
 'The cache works with SRAM arrays whose output is meaningful only in the cycle directly after a read and arbitrary in every other cycle: responses and memory requests are still those of the documented cache under every stall pattern.',
 ['schedules','histories','configurations'],'Every history and '+ENV+', with SRAM outputs that are noise except after a read.',
 'The behavioural SRAM in the tests happens to hold its output, so a cache that relies on it passes all of them.',
 ['blocking_cache/units/StallEngine.py',DP,CT,'sram/SramPRTL.py'],[('saving SRAM output across a stall','blocking_cache/units/StallEngine.py')]))
L.append(P('C26','Read selection and store placement address exactly the bytes asked for',
 'For every line and request width, size, aligned offset and data, both read-data selectors (the chained and the fast one) return exactly the addressed bytes zero-extended, zero when disabled and the low word for an atomic operation, so either can replace the other. The store replicator and the write-enable generator together place exactly the stored bytes at the offset and enable no other bit; a refill enables exactly the words that are not dirty.',
 ['inputs','configurations'],'Every input of the units for 64 to 512-bit lines and 32 to 128-bit requests.',
 'The unit tests are short tables for a few shapes, and the chained selector is used by no cache, so most size, offset and width combinations are never seen.',
 ['blocking_cache/units/muxes.py','blocking_cache/units/arithmetics.py','blocking_cache/CacheDerivedParams.py'],[('DataSelectMux and FastDataSelectMux','blocking_cache/units/muxes.py'),('DataReplicator and WriteBitEnGen','blocking_cache/units/arithmetics.py')]))
L.append(P('C27','The line trace is truthful, never fails and changes nothing',
 'Printing the line trace in any cycle, at any level, of any history never fails and changes neither responses nor memory requests. At level 1 it marks exactly the cycles with a memory response, with a memory request and with the request port busy, names in each stage the operation that is in it, and shows a read or write in the tag stage green exactly when its response will report a hit; at level 2 it contains the text of every memory request and response of the cycle; at level 0 it is empty.',
 ['histories','schedules','configurations'],'Every history and '+ENV+', traced in every cycle.',
 'Tests print traces and nobody compares them; a trace that lies or raises in a rare state is only noticed by someone debugging that state.',
 [RT,CT,'mem_ifcs/MemMsg.py'],[('line_trace of the cache',RT),('line_trace of the control unit',CT)]))
L.append(P('C28','Caches of different configurations coexist in one design',
 'A design that contains several caches of different configurations (differing in any one or more of size, ways, line, request, address and opaque width) translates to Verilog in which every cache has exactly its own geometry and port widths and behaves as it does alone. Building or translating one cache changes no other.',
 ['configurations','histories','schedules'],'Every combination of supported configurations in one design, in any order; every history and '+ENV+'.',
 'Every test translates one cache by itself, so module names, message types and parameters shared by mistake between two configurations never meet.',
 ['blocking_cache/CacheDerivedParams.py','blocking_cache/cacheStructs.py','mem_ifcs/MemMsg.py',RT],[('names that identify a configuration in the generated Verilog','blocking_cache/CacheDerivedParams.py'),('bit structures per configuration','blocking_cache/cacheStructs.py')]))
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
tech={p['id']:('property-based testing: Hypothesis-generated inputs against a reference model' if p['id'] in('C18','C19','C22','C26') else 'property-based testing: seeded random operation histories and schedules against a reference model, with shrinking') for p in L}
tech['C09']='property-based testing: metamorphic relation over pairs of random environments, with shrinking'
tech['C17']='property-based testing: differential test of two simulators on random histories, with shrinking'
note={}
base='Random search, not exhaustive. Simulated cycle by cycle on the Verilog translated from the current tree (Verilator, two-state; PyMTL simulation if it does not translate). Requests aligned, LR/SC not used.'
note.update({k:base for k in tech})
note['C14']=base+' The two-way cache is only exercised with one INIT after reset: later ones are a listed known finding.'
note['C17']='Random search; two-state on both sides; messages compared while their enable is high, outputs outside reset.'
note['C18']='Random search over request lists, images and geometries (1, 2 and 4 ways, 32-bit addresses).'
note['C19']='Random search over pin sequences; addresses below the number of words.'
note['C22']='Random search over shapes and field values; data 32 to 512 bits.'
note['C24']=base+' SRAM macros that have no model in the repository are modelled here.'
note['C25']=base+' The array class is replaced by name when the design is built.'
note['C28']=base+' Three caches per design, the middle one is exercised.'
note['C26']='Random search over widths, sizes, offsets and data of the units in the PyMTL simulation.'
note['C27']='Random histories in the PyMTL simulation, run with and without tracing; small caches.'
tech['C27']='property-based testing: metamorphic relation (traced and untraced run) and trace invariants on random histories, with shrinking'
M=dict(version=1,setup_cmd='/opt/venv/bin/python /verif/run.py selftest',
 checks=[dict(property=p['id'],quick_cmd='/opt/venv/bin/python /verif/run.py '+p['id'],thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python /verif/run.py '+p['id'],
  technique=tech[p['id']],level='exploration',level_note=note[p['id']]) for p in L],not_applicable=[],
 notes='No hooks in /repo: the checks drive the public ports. known_findings.json lists the one finding not repaired and those repaired.')
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
