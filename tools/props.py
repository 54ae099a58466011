"""What decides each property: the jobs of its check, and how its cases are made."""


def bin(b, **k):
    return dict(kind='bin', bin=b, **k)


RULE_SEQ = ('random operation histories (phases with growing, shrinking, clustered, ascending and adversarial key choices), every '
            'sequence of a small alphabet up to a fixed length, and large instances; after every operation its result, and at '
            'checkpoints the whole state, is compared with the model. Distinct = different sequence of operations and arguments; '
            'non-trivial = at least three operations')
ASM = ['the standard library collections used as the model are right',
       'keys have a lawful total order, as the crate requires']
T_MODEL = 'runtime monitoring: model-based oracle over generated histories'

PROPS = {}


def add(ids, jobs, technique, note, rule=RULE_SEQ, **k):
    for i in ids.split():
        PROPS[i] = dict(jobs=jobs, technique=technique, note=note, rule=rule, assumptions=k.get('assumptions', ASM),
                        level=k.get('level', 'exploration'), shm=k.get('shm', False))


add('C01 C03 C05 C07 C11', [bin('mem')], T_MODEL,
    'every result of tens of thousands of random, exhaustive-small and large histories agrees with BTreeMap; '
    'histories outside the generated families are not covered')
add('C02 C04', [bin('mem')], 'runtime monitoring: shape reconstructed from the comparisons a lookup makes, checked after every operation',
    'the tree shape is rebuilt from the key comparisons observed during lookups, so no private state is trusted; covers the generated histories')
add('C06', [bin('mem')], 'runtime monitoring: comparison counting against the amortized bound, deep shapes on a small stack',
    'comparisons are counted by the key type; potential-function constant 4; deep trees on threads with the usual 2 MB stack')
add('C08 C12', [bin('mem')], T_MODEL, 'set algebra and splitting of generated pairs against BTreeMap, results used further')
add('C10 C14', [bin('mem')], 'runtime monitoring: comparison counting per lookup against the logarithmic bound',
    'distinct keys examined per lookup, measured by the key type; bounds leave a margin of many standard deviations for a correct randomised structure')
add('C09 C13', [bin('seq')], T_MODEL, 'generated histories of sequence operations against Vec')
add('C15 C16', [bin('seq')], T_MODEL, 'generated histories over byte-string keys against BTreeMap and a direct definition of the longest prefix')
add('C17', [bin('seq')], T_MODEL, 'generated allocation histories against a table of live handles; addresses and drops are observed')
add('C20', [bin('seq'), dict(kind='asan', bin='seq', tier='thorough', scale={'thorough': 0.1})],
    'runtime monitoring: drop ledger and heap balance over generated histories',
    'every key and value carries an identity and a ledger entry; a counting allocator balances the heap of each history')
add('C35', [bin('seq')], T_MODEL, 'interleaved, exhausted, abandoned and mutable iterators against the model contents')

MIRI_STACK = dict(kind='miri-stack', quick=(24, 2), thorough=(256, 4))
add('C18', [bin('stack'), MIRI_STACK],
    'runtime monitoring: linearizability checker (Wing-Gong) over recorded concurrent histories; Miri data-race detector and weak-memory emulation over random schedules',
    'each recorded history is decided completely; the schedules are those the machine and the interpreter produced. The interpreter runs without borrow tracking because '
    'crossbeam-epoch 0.2 itself does not pass it',
    rule='2-4 threads run short plans of push, try_pop, len, is_empty on one stack; every history is checked for a legal LIFO order and every len against its bounds; '
         'distinct = different order of invocations and responses')
add('C19', [bin('stack'), MIRI_STACK],
    'runtime monitoring: exactly-once ledger, live-heap accounting; Miri use-after-free and race detection over random schedules',
    'each value carries an identity whose pops and drops are counted across threads; heap in use is observed for reclamation',
    rule='1-6 threads push and pop identified values in several mixes, then the stack is dropped; distinct = different observed number of pops and plan')
add('C21', [dict(kind='asan', bin='ub', scale={'quick': 0.6, 'thorough': 1.0}, time={'quick': 120, 'thorough': 900}),
            dict(kind='miri', quick=(8, 1), thorough=(16, 12)), MIRI_STACK],
    'sanitizers: AddressSanitizer, Miri (tree borrows) and standard-library precondition checks over the safe API',
    'undefined behaviour on the executed paths only; Miri histories are short, AddressSanitizer histories long; element types: heap-owning, zero-sized, over-aligned, odd-sized, and elements whose comparisons or destructors panic or whose order is inconsistent',
    rule='generated histories of every collection for awkward element types; distinct = different operations or a different interpreter schedule seed')

ASM_FS = ASM + ['keys and values round-trip through serde and bincode', 'file-system calls take effect in program order (no power loss, no reordering by the kernel)']
add('C22', [bin('bp')], T_MODEL, 'generated histories over key/value types and degrees from 3 up; results and whole contents against BTreeMap', shm=True, assumptions=ASM_FS)
add('C23', [bin('bp')], 'runtime monitoring: model-based oracle over histories split into sessions',
    'the map is dropped and reopened at random operation boundaries, and after every operation in the tight suites', shm=True, assumptions=ASM_FS)
add('C24', [bin('bp')], 'runtime monitoring: model-based oracle over nodes filled with records of maximum size',
    'every record has the configured maximum serialized size, nodes are filled to capacity and rebalanced; key/value types and degrees sampled', shm=True, assumptions=ASM_FS)
add('C25', [bin('bp')], 'runtime monitoring: file length against the peak number of live nodes over churn histories',
    'the bound is derived from the degrees and the peak number of entries', shm=True, assumptions=ASM_FS)
RULE_LSM = ('random histories over random configurations of the strategy, key and value types and mixes of operations; the file-system calls of foreground and compaction '
            'thread are observed by functions the harness defines in place of the C library\'s. Distinct = different sequence of operations and arguments')
add('C26 C27', [bin('lsm')], T_MODEL,
    'results and whole contents against BTreeMap with compaction running in the background at its own pace; configurations with positive limits', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C28', [bin('lsm')], 'runtime monitoring: model-based oracle over histories split into sessions at flushes',
    'each session ends in a flush, is dropped, reopened and compared', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C29', [bin('lsm')], 'runtime monitoring with crash images: the directory is recorded after every mutating file-system call of any thread, each image reopened and judged against the states of the model',
    'every file-operation boundary of each generated history is a crash point (histories are sampled); some images are continued and killed again', level='fault_enumeration',
    shm=True, assumptions=ASM_FS, rule=RULE_LSM + '; every distinct directory image of a history is opened once')
add('C30', [bin('lsm')], 'runtime monitoring: snapshots of the model per iterator; file operations of compaction threads counted while iterators are alive',
    'up to three iterators interleaved with writes, flushes and further iterators', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C31', [bin('lsm')], 'runtime monitoring under controlled schedules: the compaction thread is held at its file-system calls and released stepwise between foreground operations; both threads delayed between single instructions',
    'schedules are controlled at the granularity of file-system calls and sampled at that of instructions, histories are sampled', shm=True, assumptions=ASM_FS,
    rule=RULE_LSM + ' and schedule decisions')
add('C32', [bin('lsm')], 'runtime monitoring: directory listing against the decoded metadata after every flush; growth over long churn',
    'plateau over 160 rounds of rewriting the same keys; buckets wide enough to hold tables of similar size', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C33', [bin('lsm')], T_MODEL, 'single SSTables and merged ones of up to 80 000 entries and 700 tables, keys, gaps and outside keys looked up, before and after reopening', shm=True, assumptions=ASM_FS,
    rule='entry sets of 1 to 80 000 keys around block boundaries, key types, strides, value lengths up to 400 kB, tombstones')
add('C34', [bin('lsm')], 'runtime monitoring with fault injection: chosen file-system calls fail; results judged against the set of values each key may have',
    'single failing calls, bursts and outages at sampled points of sampled histories, by kind of call, thread and errno', level='fault_enumeration', shm=True,
    assumptions=ASM_FS, rule=RULE_LSM + '; faults: which calls, which thread, from which call on, how many, which errno, short writes')
RULE_BPIO = ('random histories over random degrees, key and value sizes; the file-system calls of the map are observed and made to fail by functions the harness '
             'defines in place of the C library\'s. Distinct = different sequence of operations, arguments and faults')
add('C38', [bin('seq')], 'runtime monitoring: heap blocks and bytes of the counting allocator judged against the contents after every operation',
    'one block and at most 128 bytes per element (128 being twice what the node types need), twice the nodes of the path-compressed tree, chunks of the arena for the peak; '
    'generated histories')
add('C39', [bin('seq')], 'runtime monitoring: CPU time per operation on large collections, cheapest of several batches against a fixed limit',
    '150 000 to 300 000 elements; the limit of 120 microseconds is tens of times what an operation needs and a tenth of what a walk over the collection takes',
    rule='each collection is built in several ways (orders, random places, concatenations, removals), then every operation is timed in batches of 64; distinct = different '
         'random stream and way of building')
add('C40', [bin('lsm')], 'runtime monitoring: metadata and tables on disk decoded after every flush and judged against the structural invariant',
    'the structure is read from the files; should the encoding of the metadata change, the check counts what it could not decode', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C41', [bin('lsm')], 'runtime monitoring: files opened and bytes read per lookup, recorded at the file-system calls, judged against the tables on disk',
    'every key of sampled maps is looked up; filters are judged by their average over at least 200 queries of tables of 32 entries or more, 8 KB of buffering per file is allowed',
    shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C36', [bin('bpio')], 'runtime monitoring with fault injection: chosen file-system calls fail or transfer partly; results, contents and file bytes judged against the model',
    'single failing calls and outages at sampled points of sampled histories; oversized records of every kind', level='fault_enumeration', shm=True, assumptions=ASM_FS, rule=RULE_BPIO)
add('C37', [bin('bpio')], 'runtime monitoring: page reads per lookup counted at the system-call boundary, against the exact height bound',
    'every lookup of sampled histories at checkpoints; the bound is exact for the given degrees', shm=True, assumptions=ASM_FS, rule=RULE_BPIO)
add('C42', [bin('lsm')], 'runtime monitoring: SSTables made per operation, counted at the file-system calls, against an account of the bytes held in memory',
    'the account allows 24 bytes of overhead per entry before a table is premature; generated histories and budgets', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C43', [bin('lsm')], 'runtime monitoring: tables and sizes before and after each compaction, read from disk, against the definition of a bucket',
    'one compaction at a time, held until the state before it is recorded; table sizes of several classes, configurations sampled', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C44', [bin('bpio')], 'runtime monitoring: bytes read and written per operation, counted at the system-call boundary, against bounds in the height of the tree',
    'every update of sampled histories; the bounds are about twice what was ever seen for updates, exact for iteration and reads', shm=True, assumptions=ASM_FS, rule=RULE_BPIO)
add('C45', [bin('lsm')], 'runtime monitoring: tables and their keys before and after each compaction, read from disk, against the least a leveled compaction must rewrite',
    'one compaction at a time, held until the state before it is recorded; key orders and limits sampled', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C46', [bin('bp'), bin('lsm')], 'runtime monitoring: contents of new, refused and neighbouring maps against the model, and every file before and after against each other',
    'earlier contents are maps of sampled histories and random bytes', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C47', [bin('lsm'), bin('bpio')], 'runtime monitoring: live bytes at the allocator during and after each call and in compaction threads, against bounds without the number of records',
    'bounds three to ten times what was ever seen, data up to ten times (BpMap: seventy times) the bound; summaries and filters are counted as they lie on disk', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C48', [bin('lsm'), bin('bpio')], 'runtime monitoring with fault injection: descriptors counted at open and close, compaction threads at their file-system calls',
    'files, not directories; a compaction thread counts from its first file-system call to its last', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C49', [bin('lsm')], 'runtime monitoring with schedule control: the compaction thread is held at a file-system call while operations must return',
    'held before file-system calls only, for at most 40000 wake-ups of 0.2 ms; an operation beside which it had to be let go has waited', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
add('C50', [bin('lsm'), bin('bpio')], 'runtime monitoring with failing serialization: contents against the model, file bytes and SSTables made against an account without the refused records',
    'keys and values that always or never serialize', shm=True, assumptions=ASM_FS, rule=RULE_LSM)
