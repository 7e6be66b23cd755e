"""The properties: what they say, how each is decided (one table, from which gen.py writes properties.jsonl and MANIFEST.json)."""
PROPS = {}
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, bins, level='model_checking', rule='', technique='', note='', bounds='', assumptions=()):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bins=bins, level=level,
                     rule=rule or 'every index of the enumerated space is one case; non-trivial = it stored or read back at least one pair or fault',
                     technique=technique, note=note, bounds=bounds, assumptions=list(assumptions))


def b(src, variant='asan', **k):
    return dict(dict(src=src, variant=variant), **k)


HASH, PAGE, POOL, DB = 'filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_pagepool.c', 'filehash/ffdb_db.h'
KVM = 'stateless explicit exploration of the real library: every operation sequence in the bound is executed and compared, step by step, with a reference map model'
REF = 'The reference model (a map, ~200 lines in harness/kv.cpp) is trusted; so are gcc, the address sanitizer and the local file system.'

P('P01', 'A database is a map: every read returns the last value stored',
  'Within one session, for every sequence of puts, gets and removals of permission (no-overwrite), a get returns exactly the bytes of the last accepted put of that key and reports not-found for a key that was never stored. '
  'A put is accepted unless its key is too long for a page, it asks for no overwrite of an existing key, or it would enlarge an existing value; the accepted size may be from zero bytes to many pages.',
  ['histories', 'inputs', 'configurations'], 'for all operation sequences, key and value sizes, hash functions, bucket counts and cache sizes',
  'The tests store one list of distinct random strings and read it back; they never reach colliding hashes, replaced values of other sizes, overflow chains, multi-page values next to one-byte values, or the order of operations.',
  [PAGE, HASH, POOL, DB],
  [('lookup and insertion', 'ffdb_page.c: ffdb_find_item, ffdb_add_pair, ffdb_get_item'), ('put/get entry points', 'ffdb_hash.c: _ffdb_hash_put, _ffdb_hash_get'), ('page cache', 'ffdb_pagepool.c')],
  [b('p01.cpp')], technique=KVM, bounds='all sequences of the operation alphabet to depth 3-4 (quick) / 5 (thorough), by family; all pairs of value sizes in the boundary set; all key lengths 1..maximum+3',
  note='Exhaustive within the stated depth, alphabet and sizes. ' + REF)

P('P02', 'Everything stored survives close and reopen, session after session',
  'After a successful close, reopening the file (for reading or for writing, with page rearrangement on or off, with any cache size) gives exactly the pairs stored so far, and they can be changed and extended as if the file had never been closed. '
  'This holds for every history of sessions.',
  ['histories', 'configurations'], 'for all sequences of sessions and what is done in each, for all combinations of rearrangement and cache size per session',
  'The tests close and reopen a file once with fixed options; pages that move on close and move back on open depend on the bucket count, level and page types reached, which one sample does not cover.',
  [HASH, PAGE, POOL],
  [('close: pages moved into unused buckets, header written, file cut', 'ffdb_hash.c: _ffdb_hdestroy; ffdb_page.c: ffdb_rearrage_pages_on_close, ffdb_reduce_filesize'), ('open: pages moved back', 'ffdb_page.c: ffdb_rearrage_pages_on_open, ffdb_last_data_page')],
  [b('p02.cpp')], technique=KVM + '; a session is one transition', bounds='all histories of 3 (quick) / 4 (thorough) sessions from 12 session bodies x 4 open modes',
  note='Exhaustive within the bound. ' + REF)

P('P03', 'Growth never loses, duplicates or changes a pair',
  'As keys are added and the table splits its buckets and doubles, every pair stored earlier keeps being found with its exact value, is seen exactly once by a traversal, and no other key appears. '
  'This holds at every table size, in whatever order and with whatever hash values the keys arrive.',
  ['histories', 'inputs', 'configurations'], 'for all insertion orders, hash distributions, initial bucket counts, value sizes and table sizes up to the bound',
  'A test adds one list of random strings: each size of the table is passed once, with one distribution of keys over buckets.',
  [HASH, PAGE],
  [('linear hashing split', 'ffdb_hash.c: _ffdb_expand_table; ffdb_page.c: ffdb_split_bucket'), ('overflow pages and their free list', 'ffdb_page.c: _ffdb_ovflpage, _ffdb_free_ovflpage')],
  [b('p03.cpp')], technique=KVM, bounds='every table size up to 300 (thorough: more) keys for 4 bucket counts x 4 caches x 2 modes x 3 hashes x 11 value sizes; all permutations of a small key set',
  note='Exhaustive within the bound. ' + REF)

P('P04', 'After sync the file on disk is a complete database',
  'Once sync has returned success, the file as it then stands on disk, opened by another process, holds exactly the pairs stored so far with their exact values, and no later read-only use of the handle changes that. '
  'A process killed after sync and before its next change therefore loses nothing.',
  ['crash_points', 'histories', 'configurations'], 'for every history and every point between a successful sync and the next change at which the process dies',
  'No test kills a process or looks at the file before close.',
  [HASH, POOL, PAGE], [('sync writes header and dirty pages', 'ffdb_hash.c: _ffdb_hash_sync; ffdb_pagepool.c: ffdb_pagepool_sync')],
  [b('p04.cpp')], technique='enumeration of histories with a crash image taken after every sync and after every later read; each image is opened by the real library and compared with the reference map',
  bounds='all interleavings of puts, syncs, gets and scans to the stated depth over 6 configurations; image opened read-only and read/write',
  note='Process death (not power loss of unsynced kernel buffers): the library never calls fsync, and none is claimed. ' + REF)

P('P05', 'A cursor delivers every key exactly once, in either direction',
  'From its first call a cursor delivers each stored pair exactly once with its exact key and value and then reports the end, forwards and backwards, whatever gets, other cursors and abandoned cursors are interleaved with it. '
  'An empty database yields the end at once, and using or closing a cursor never blocks or changes the data.',
  ['histories', 'inputs', 'configurations'], 'for all interleavings of cursor steps with gets, other cursors and closes, for all contents including empty buckets and overflow chains',
  'The cursor test walks forward once over one list.',
  [PAGE, HASH], [('cursor movement', 'ffdb_page.c: ffdb_cursor_find_by_key; ffdb_hash.c: _ffdb_hash_cursor')],
  [b('p05.cpp')], technique='exhaustive enumeration of cursor/get/close interleavings on the real library against a reference set of keys',
  bounds='all sequences of cursor and get operations to depth 6 (quick) / 8 (thorough) on one or two cursors; all table contents of 0..N keys in six configurations',
  note='A thread that holds a cursor and reads other buckets concurrently with another such thread is outside the claim (see P07). ' + REF)

P('P06', 'Tuning parameters never change what is stored',
  'Page size, initial bucket count, cache size and page rearrangement are performance settings: for every legal combination the same history gives the same answers, in the same session and after reopening with any other cache size or rearrangement setting. '
  'Cache pressure, down to no cache at all, is invisible. A request beyond what is supported is refused, never accepted and not honoured.',
  ['configurations', 'histories'], 'for every combination of page size, bucket count, cache size and rearrangement, at creation and at each reopen',
  'The tests use one or two page sizes and caches.',
  [HASH, POOL, PAGE], [('page cache eviction', 'ffdb_pagepool.c: _ffdb_pagepool_reuse_bkt'), ('bucket/page arithmetic', 'ffdb_page.h: BUCKET_TO_PAGE; ffdb_hash.c: _ffdb_init_htab')],
  [b('p06.cpp')], technique=KVM, bounds='full product of 6 page sizes x 8 bucket counts x 5 caches x 2 modes x 6 histories x reopen settings; files to 16 GB with pages to 1 MB; 67 extreme bucket counts and page sizes',
  note='Exhaustive product of the listed settings. ' + REF)

WRAPT = 'pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_self malloc calloc realloc free memcpy memmove memset memcmp lseek lseek64 read write pread pwrite pread64 pwrite64'.split()
P('P07', 'Threads reading one database concurrently all see the stored data',
  'Any number of threads may read one open database through one handle at the same time (gets, traversals, user information), directly or through a typed store and copies of it: under every schedule each read returns exactly what it would return alone, and every thread finishes. '
  'No schedule causes a data race, a lost wake-up, a deadlock or a use of freed memory.',
  ['schedules', 'histories', 'configurations'], 'for all schedules of the threads within the preemption bound, all pairs of read programs, all cache sizes from none to everything',
  'The threaded test runs on the schedule the machine happens to pick, with a large cache where pages are hardly ever evicted while another thread waits for them.',
  [POOL, PAGE, HASH, 'filehash/ffdb_pagepool.h', 'src/ConfDataStoreDB.h', 'src/ConfDataStoreDBSimple.h', 'src/DBFunc.h'],
  [('pinning, waiters and wake-up', 'ffdb_pagepool.c: ffdb_pagepool_get_page, ffdb_pagepool_put_page, _ffdb_pagepool_reuse_bkt'), ('locks', 'ffdb_hash.c: _ffdb_hash_get')],
  [b('p07.cpp', 'sched', **{'with': ['kv.cpp', 'ctlsched.cpp'], 'wrap': WRAPT}),
   b('p07x.cpp', 'sched', **{'with': ['ctlsched.cpp'], 'cxx': True, 'wrap': WRAPT, 'mainflags': '-fsanitize=thread'})],
  technique='stateless model checking of the real threads under a controlled scheduler: preemption- and spurious-wakeup-bounded depth-first search over all schedules, with a happens-before race, deadlock and use-after-free detector',
  bounds='2 threads (3 in one family) x 1-2 reads each, preemption bound 2 (3 thorough), every mutex/condition/IO operation a scheduling point, 4 databases; typed stores: all 81 pairs of reading calls x 2 store classes x 2 caches, preemption bound 1 (2 thorough)',
  note='Complete for the bounded programs; sequentially consistent memory, with data races reported as violations, so weaker memory adds nothing to race-free programs. The scheduler replaces pthread mutexes and conditions by models of their POSIX semantics.')

P('P08', 'A damaged file is never taken for good data',
  'If bytes of a database file have changed, every later open, get or traversal either reports the damage (an error or a loud end of the process) or returns exactly what was stored: never other bytes, and never memory outside the database. '
  'Pages that were lost, zeroed or cut off never turn into wrong values.',
  ['fault_sequences', 'inputs'], 'for every byte position of the file and every changed value in the set, and for every page lost, zeroed or truncated',
  'No test reads a damaged file.',
  [PAGE, HASH, POOL], [('header and page check sums', 'ffdb_hash.c: _ffdb_hget_header; ffdb_page.c: ffdb_pgin_routine'), ('data check sums', 'ffdb_page.c: ffdb_get_item')],
  [b('p08.cpp', **{'with': ['kv.cpp', 'fmt.cpp'], 'wrap': ['exit', 'abort', '__assert_fail'], 'libflags': '-DNDEBUG'})], level='fault_enumeration',
  rule='one case = one database image with one fault (byte flip, zeroed range, truncation, page loss) followed by open, all gets, a traversal and the information calls; non-trivial = the fault hit a page the reads visit',
  technique='exhaustive enumeration of fault positions and patterns on real file images, every read compared with the reference map',
  bounds='every byte of the images x several bit patterns; every page zeroed, every truncation length class; small images with all page types',
  note='Single faults; a whole page replaced by an older valid page of the same file is not claimed to be detected (no per-page generation). Assertions are compiled out so that only the real checks count. ' + REF)

P('P09', 'Files of the other byte order and of version 5 read like native ones',
  'A file written on a machine of the other byte order, or in the previous format version 5, opens and gives exactly the stored pairs, user information and configurations. '
  'Where writing to such a file is accepted, the result is again a valid file of the same byte order holding exactly the union of old and new data.',
  ['inputs', 'histories', 'configurations'], 'for all contents in the enumerated histories, each converted to the other byte order and to version 5, and all follow-up sessions',
  'No test file of another byte order or version exists.',
  [PAGE, HASH], [('byte swapping', 'ffdb_page.c: ffdb_pgin_routine, ffdb_pgout_routine, _ffdb_swap_*'), ('version 5 lengths', 'ffdb_page.c: uses of FFDB_VERSION_5')],
  [b('p09.cpp', **{'with': ['kv.cpp', 'fmt.cpp']})], technique=KVM + '; the initial states are produced by an independent encoder of the file format',
  bounds='all histories in the table x {native, swapped} x {version 6, 5} x follow-up histories x read-only / read-write',
  note='The converter (harness/fmt.cpp) is an independent reading of the format and is itself checked by converting back. ' + REF)

P('P10', 'User information and configuration records are kept exactly',
  'User information up to its declared length and all configuration records are returned exactly as last set, by number or all together, in the same session and after reopen, whatever is stored besides. '
  'Requests beyond the declared length or number, and settings through a read-only handle, are refused and change nothing; a declared length or number that cannot be kept is refused when the database is made.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of set/get of information and configurations mixed with puts and reopens, all lengths 0..maximum+1, all configuration counts across page boundaries',
  'The tests set each once with one length.',
  [HASH, PAGE], [('information pages', 'ffdb_page.c: ffdb_set_user_info.., ffdb_hash.c: ffdb_set_config..')],
  [b('p10.cpp')], technique=KVM, bounds='all operation sequences to depth 4 over set/get/reopen/put; every length and count across one and two page boundaries; 41 declared capacities around and beyond 65535 header pages', note='Exhaustive within the bound. ' + REF)

P('P11', 'A failing device never causes silent loss',
  'Whenever a read, write, seek or cut of the file fails, once or for good, at any point of a session, the failure is reported by some operation before the process can take its data for stored, or what is stored is unaffected. '
  'A read never returns bytes that were not stored, an operation that failed on reading can be repeated, and nothing crashes.',
  ['fault_sequences', 'crash_points', 'histories'], 'for every system call of every enumerated session as the point of failure, for errors, short transfers and lasting failures',
  'No test makes a system call fail.',
  [POOL, PAGE, HASH], [('I/O results', 'ffdb_pagepool.c: _ffdb_pagepool_write, _ffdb_pagepool_read; ffdb_hash.c: _ffdb_hput_header')],
  [b('p11.cpp', **{'with': ['kv.cpp'], 'wrap': 'exit abort __assert_fail read write pread pwrite pread64 pwrite64 lseek lseek64 ftruncate ftruncate64 fsync fdatasync'.split()})], level='fault_enumeration',
  rule='one case = one session script, one system call of it made to fail in one way; non-trivial = the call was reached',
  technique='exhaustive fault injection: every system call of every session script is failed in every way, then the outcome is checked against the reference map',
  bounds='all calls of 10 long sessions and of all histories of 2 of 10 operations on 4 databases (thorough: 3), and of 3 (4) on 2 databases, x {error, short transfer, seek failure, device full} x {once, lasting}; a failed sync is tried again', note='After a writing operation has reported failure only "no invented bytes" is claimed. ' + REF)

P('P12', 'What is refused leaves no trace',
  'A read-only handle never changes a byte of the file, whatever is called through it, and every change through it is refused. '
  'On a writable handle a refused operation (too long key, no-overwrite, larger replacement, bad flag, bad argument) leaves contents and later behaviour exactly as if it had not been called.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of refused and accepted operations to the bound',
  'Tests do not check that the file is unchanged nor mix refused operations with others.',
  [HASH, PAGE], [('permission and argument checks', 'ffdb_hash.c: _ffdb_hash_put; ffdb_page.c: ffdb_add_pair')],
  [b('p12.cpp')], technique=KVM + '; file bytes compared before and after', bounds='all sequences to depth 4 of read-only operations; all insertions of refused operations into base histories', note='Exhaustive within the bound. ' + REF)

P('P13', 'Only a valid database opens; a refused open changes nothing',
  'Opening a file that is no database of this kind, is truncated, has another hash function, an unsupported version or parameters that contradict themselves is refused (or ends the process loudly) and leaves the file as it was and no descriptor behind. '
  'Opening with every legal parameter combination succeeds, and parameters of an existing file come from the file.',
  ['inputs', 'configurations'], 'for all open flags, all truncations of the header, all enumerated header fields and values, all creation parameters in the set',
  'Tests open only files they just created.',
  [HASH, DB], [('open validation', 'ffdb_hash.c: ffdb_hash_open, _ffdb_init_hash, _ffdb_hget_header')],
  [b('p13.cpp', **{'with': ['kv.cpp', 'fmt.cpp']})], technique='exhaustive enumeration of open requests and file headers, executed on the real library against a reference of which must open',
  bounds='all flag combinations x file kinds; every header length; every header field x boundary values (check sum recomputed)', note='Exhaustive within the lists. ' + REF)

P('P14', 'A handle gives back everything it took',
  'After a handle is closed, no memory and no descriptor obtained on its behalf remains, whatever was done through it (successful, refused and abandoned operations alike, and also when the device fails under it), and an open that is refused takes nothing. '
  'Results handed to the caller are the caller\'s alone, and no call reads or writes outside the buffers it was given.',
  ['histories', 'fault_sequences', 'configurations'], 'for all sequences of operations of a session, all kinds of refused open, any number of sessions',
  'Tests never count memory or descriptors, and a job that opens thousands of configuration files is the ordinary use.',
  [HASH, PAGE, POOL], [('release of what a session holds', 'ffdb_hash.c: _ffdb_hdestroy; ffdb_pagepool.c: ffdb_pagepool_close'), ('failing opens', 'ffdb_hash.c: __ffdb_hash_open')],
  [b('p14.cpp', **{'with': ['kv.cpp', 'fmt.cpp'], 'wrap': 'exit abort __assert_fail read write pread pwrite pread64 pwrite64 lseek lseek64 ftruncate ftruncate64'.split()})], technique='exhaustive enumeration of sessions and refused opens on the real library; heap bytes and descriptors are compared before and after each, all buffers have exact size under the address sanitizer',
  bounds='all sequences of 3 (thorough: 4) of 20 operations x 3 configurations x empty/filled; 18 kinds of refused open; 40 sessions in a row; every system call of all sequences of 2 operations failing in 4 ways', note='Memory is counted by the sanitizer allocator. ' + REF)

P('P15', 'The file format is fixed',
  'A file closed or synced by the library is a well-formed version 6 file: a reader that knows only the format finds exactly the stored pairs, each in the bucket its hash value assigns, every page with its number and check sum, and the user information and configuration records. '
  'Files written by earlier builds of the library open, give exactly their contents and can be extended.',
  ['histories', 'inputs', 'configurations'], 'for all histories in the bound, at every sync and close, and for all reference files with all follow-up sessions',
  'A test writes and reads with the same build, so a change made symmetrically to both sides passes and makes every existing data file unreadable.',
  [HASH, PAGE, 'filehash/ffdb_page.h', 'filehash/ffdb_hash.h', 'filehash/ffdb_hash_func.c'], [('header', 'ffdb_hash.h: ffdb_hashhdr_t; ffdb_hash.c: _ffdb_hput_header'), ('pages', 'ffdb_page.h'), ('default hash', 'ffdb_hash_func.c: __ham_func5')],
  [b('p15.cpp', **{'with': ['kv.cpp', 'fmt.cpp']})], technique=KVM + '; at every sync and close the file is decoded by an independent reader of the format; reference files from the base build are initial states too',
  bounds='all sequences of 4 (thorough: 5) of 10 operations x 4 configurations; every table size to 120 (400); 7 reference files x 5 follow-ups x cache x rearrangement', note='The reader (harness/fmt.cpp) shares no code with the library. ' + REF)

CXX = {'with': [], 'cxx': True}
P('P16', 'A typed store is a map from key objects to data objects',
  'Through ConfDataStoreDB and ConfDataStoreDBSimple, for every sequence of calls, get and getBinary return exactly the object or bytes last inserted for an equal key, exist is true exactly for stored keys, and each of the bulk readers yields every stored pair exactly once, with keys compared and hashed by the key class\'s own functions where it has them. '
  'A store that is not open refuses every call, records that cannot be decoded are reported and harm nothing else, user data is kept, and nothing is leaked.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of store operations (typed, string-key and binary forms, flush, reopen, copies, failed opens, closed stores) in the bound',
  'The tests insert one list and read it back through one store with one key class.',
  ['src/ConfDataStoreDB.h', 'src/ConfDataStoreDBSimple.h', 'src/DBFunc.h', 'src/DBFunc.cpp'], [('store', 'ConfDataStoreDB.h'), ('templates', 'DBFunc.h: getData, insertData, allKeys, allPairs'), ('binary readers', 'DBFunc.cpp')],
  [b('p16.cpp', **CXX)], technique='stateless explicit exploration of the real classes: all call sequences in the bound, each step compared with a reference map', bounds='all sequences of 3 (thorough: 4) of 17 operations x 4 store types', note='Exhaustive within the bound. The reference model in harness/p16.cpp is trusted.')

P('P17', 'An ensemble store keeps one element per configuration under every key',
  'In AllConfStoreDB, for every sequence of calls, each reader (get, string-key and binary forms, bulk readers, key iterator) returns for every key exactly the ensemble last inserted, one element per configuration in order, and update replaces exactly the element at its index. '
  'Ensembles of the wrong number or with elements of unequal size, indexes outside the ensemble, unknown keys, and stores that are not open or do not fit the configurations are refused (or end the process loudly) and change nothing. '
  'Configuration records are kept field by field, through reopen, and taken from the file when it has data.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of inserts, updates, configuration changes, reopens (as writer, reader, with fresh or reused objects) in the bound, all ensemble sizes and element sizes in the set including empty elements',
  'The tests insert one list of equal ensembles, update each once and read them back.',
  ['src/AllConfStoreDB.h', 'src/DBCursor.h', 'src/DBCursor.cpp', 'src/ConfigInfo.cpp', 'src/DBFunc.h'], [('ensemble records', 'AllConfStoreDB.h: insert, get, update'), ('open', 'AllConfStoreDB.h: open'), ('iterator', 'DBCursor.h: DBKeyIterator')],
  [b('p17.cpp', **CXX)], technique='stateless explicit exploration of the real classes: all call sequences in the bound, each step compared with a reference model of ensembles and configuration records',
  bounds='all sequences of 3 (thorough: 4) of 16 operations x 3 data classes x ensemble shapes; all pairs of files through one object', note='All elements of a store have one size within a session. Exhaustive within the bound. The reference model in harness/p17.cpp is trusted.')

P('P18', 'A store over several databases answers as their union',
  'ConfDataStoreMultipleDB and AllConfStoreMultipleDB find a key exactly if one of their databases holds it and return the data of the first database, in the given order, from which it can be read; keys lists the keys of every database; user data, number of configurations and size are those of the first. '
  'Opening fails if one of the files cannot be opened, fileExists is true exactly when all named files exist, calls on stores that are not open are refused, and nothing is leaked.',
  ['inputs', 'configurations', 'histories'], 'for all tuples of databases up to the bound drawn from 14 kinds of content (all key overlaps, empty, missing, undecodable records), in every order, with every cache setting',
  'No test uses these classes.',
  ['src/ConfDataStoreMultipleDB.h', 'src/AllConfStoreMultipleDB.h'], [('order of search', 'ConfDataStoreMultipleDB.h: get, getBinary, exist; AllConfStoreMultipleDB.h: get')],
  [b('p18.cpp', **CXX)], technique='exhaustive enumeration of tuples of databases, executed on the real classes against a reference union', bounds='all tuples of 0..3 (thorough: 4) of 14 contents x 3 cache settings x open once / twice; 4, 5, 9, 17 and 40 databases with the key at each place', note='Exhaustive within the bound.')

P('P19', 'Merging configuration databases gives exactly their ensemble',
  'ConfDataDBMerger fills the combined database with one ensemble for every key of the first named database, whose element for each configuration is exactly the data stored in that configuration\'s database, whatever the memory limit; unfinished configurations keep their place, are recorded as not inserted and can be filled later with update, and the others are recorded as inserted under their number, index and name. '
  'Databases that do not fit together (missing file, missing key, data of another size) end the merge loudly and are never merged into wrong data.',
  ['inputs', 'configurations', 'histories'], 'for all numbers of configurations, subsets of finished ones, numbers of keys, data sizes and memory limits in the bound',
  'The merge test merges one list of databases, all present, with one memory limit, and checks nothing.',
  ['src/ConfDataDBMerger.h', 'src/AllConfStoreDB.h'], [('chunks', 'ConfDataDBMerger.h: iterateSize, merge'), ('bag', 'ConfDataDBMerger.h: initBag, populateBag, insertBag')],
  [b('p19.cpp', **CXX)], technique='exhaustive enumeration of merges (configurations x subsets x keys x sizes x memory limits) on the real class against the reference ensemble', bounds='1..4 (thorough: 5) configurations, all non-empty subsets finished, 4-5 key counts, 4 data sizes, 9 memory limits, construction variants; 7 kinds of misfit at every position',
  note='Keys that only later databases hold are not merged (documented behaviour of the class: the first database defines the keys).')

P('P20', 'Objects survive their binary form exactly, on every machine',
  'StringKey, UserData and VFloatData write a binary form that is byte for byte fixed (big-endian magic number, serial id and counts, then the content) and read it back to an equal object for every content; any input that is not such a form is refused with an exception, changes nothing and is never read beyond its end. '
  'The byte-order, check-sum and hash helpers they rest on are exact for every value.',
  ['inputs'], 'for all strings of up to two bytes and all lengths in the set, all float bit patterns, all integers, all wrong lengths and headers in the set',
  'The tests write and read one list of random strings and whole-number floats; a change on both sides passes while old files become unreadable.',
  ['src/DBString.cpp', 'src/VFloatData.cpp', 'src/FileDB.cpp', 'src/ConfigInfo.cpp', 'src/HashFunc.cpp'], [('string objects', 'DBString.cpp: writeObject, readObject'), ('float vectors', 'VFloatData.cpp'), ('byte order', 'FileDB.cpp: hton_*, ntoh_*')],
  [b('p20.cpp', **CXX)], technique='exhaustive enumeration of object contents and of malformed inputs, executed on the real classes against the definition of the binary form',
  bounds='all 1- and 2-byte strings, lengths to 5000; all upper halves of float bit patterns x 64 lower halves (thorough: all 2^32); all 16-bit and strided 32-bit integers (thorough: all 2^32); all header byte pairs', note='Exhaustive within the lists.')

P('P21', 'A writer that dies leaves no invented data behind',
  'Whatever moment a writing process or its machine dies at (between any two writes to the file, in the middle of one, or with some of the last writes not on the disk), opening the file for reading never gives anything that was not stored: '
  'every value returned for a key was stored under that key at some time, every key a traversal delivers was stored, user information is one that was set, and traversals end. Anything else is reported as an error, as not found, or ends the process loudly; memory outside the pages is never read.',
  ['crash_points', 'histories', 'configurations'], 'for all histories in the bound, all crash points, all positions in the set at which the last write is torn, and all subsets of the last writes lost with the power',
  'No test looks at a file whose writer did not close it.',
  [PAGE, HASH, POOL], [('kind of a page', 'ffdb_page.c: ffdb_get_page'), ('page signature and check sum', 'ffdb_page.c: ffdb_pgin_routine'), ('data check sum and back reference', 'ffdb_page.c: _ffdb_get_data'), ('header check sum', 'ffdb_hash.c: _ffdb_hget_header')],
  [b('p21.cpp', wrap='exit abort __assert_fail write pwrite pwrite64 ftruncate ftruncate64'.split())], level='model_checking',
  technique='enumeration of histories on the real library with every write recorded; the file of every crash point, torn write and power-loss subset is rebuilt, read by the real library, and each answer is compared with the set of all values ever stored',
  bounds='all sequences of 3 (thorough: 4) of 8 steps x 5 configurations from an empty, a 14-key and a 60-key table; 6 positions in each write; all subsets of the last 4-5 (thorough: 6-8) writes',
  note='Read-only opens of the crashed file: what a repair session through a writing handle makes of it is not claimed. A whole page that is stale but intact cannot be told from a current one, so old values may appear; invented ones may not. ' + REF)

P('P22', 'Values of more than 4 gigabytes are kept exactly',
  'A value may have any size up to what memory and disk allow: values at and beyond 2^32 bytes are stored, returned by get and by traversals, kept through growth, page rearrangement and reopen, and replaced by values of any smaller size, exactly like small ones. '
  'Sizes that agree in their low 32 bits are never confused: enlarging is refused and a caller\'s buffer that is too small is refused and not overrun.',
  ['inputs', 'histories'], 'for all pairs of stored and replacing sizes in the boundary set around 2^32 and 2^33, with growth, reopen and traversal',
  'No test stores more than a few kilobytes under a key; the length is split over two fields once it exceeds 32 bits.',
  [PAGE, 'filehash/ffdb_page.h'], [('length split over two fields', 'ffdb_page.h: INSERT_LEN_TO_PGOFFSET, REAL_DATA_LEN'), ('storing', 'ffdb_page.c: _ffdb_add_data, _ffdb_replace_data, _ffdb_replace_item_on_page'), ('reading', 'ffdb_page.c: _ffdb_get_data')],
  [b('p22.cpp', variant='fast', wrap=['write', '__ffdb_crc32_checksum'], jobs=4, one_timeout=420)], technique='exhaustive enumeration of (stored size, replacing size, settings) around 2^32 on the real library, compared byte by byte with the reference',
  bounds='3 x 5 (thorough: 5 x 7) sizes between 2^32-1 and 2^33+5 bytes replaced by sizes between 0 and 2^32+10; growth by 60 keys around a value of 2^32+10 bytes', note='Values are zeros with marked places so that the file is sparse. Needs 20 GB of memory. ' + REF)

P('P23', 'Databases open at the same time do not influence one another',
  'A process may have any number of databases open, and several read-only handles on one file: what is done through one handle is never seen through a handle on another file, closing one leaves the others usable, and each answers as if it were the only one. '
  'Threads may use different databases at the same time without any synchronization of their own, from the very first call on: no schedule causes a data race or a wrong result.',
  ['histories', 'schedules', 'configurations'], 'for all interleavings of the operations on two and three handles in the bound, and all schedules of two and three threads with databases of their own within the preemption bound',
  'The tests open one database per process (one opens two, with equal contents).',
  [HASH, POOL, 'filehash/ffdb_hash_func.c', 'src/FileDB.cpp'], [('state of the process', 'ffdb_hash_func.c: __ffdb_crc32_init; FileDB.cpp: crc32_init'), ('state of a handle', 'ffdb_hash.c: __ffdb_hash_open')],
  [b('p23.cpp'), b('p23.cpp', 'sched', **{'with': ['kv.cpp', 'ctlsched.cpp'], 'cxx': True, 'cflags': '-DTHREADS', 'wrap': WRAPT + ['pthread_once', 'close']})],
  technique='stateless exploration of all operation interleavings over several handles against one reference map each; threads under the controlled scheduler with a happens-before race detector',
  bounds='2 handles x 3 (thorough: 4) and 3 handles x 2 (3) of 9 operations, 4 (5) steps of 3 readers of one file; 5 thread programs, all pairs with 1 (2) preemptions, all triples of 3', note='Exhaustive within the bound. ' + REF)

P('P24', 'The hash functions and the key order are fixed',
  'The hash functions the library provides - the default one and those offered in HashFunc.h and the C library for key classes to use - are pure functions of exactly the given bytes and never change: for every byte string of every length each gives the value of its published definition, so that a file built with it is found again by every other build. '
  'The default comparison is the lexicographic order of unsigned bytes, shorter first. A store whose key class uses any of these functions is a map like any other, in growth and after reopen.',
  ['inputs', 'histories'], 'for all byte strings up to 2 (3) bytes, all lengths and byte positions beyond, all pairs of short keys for the order; all store shapes in the bound for every function',
  'The tests use the default function only and never look at a value.',
  ['src/HashFunc.cpp', 'src/HashFunc.h', 'filehash/ffdb_hash_func.c'], [('hash functions', 'HashFunc.cpp; ffdb_hash_func.c: __ham_func2..5'), ('default order', 'ffdb_hash_func.c: __ham_defcmp')],
  [b('p24.cpp', **{'cxx': True, 'with': []})],
  technique='exhaustive enumeration of inputs, executed on the real functions and compared with independently written definitions; bounded-exhaustive store histories for each function',
  bounds='17 functions x all strings of length 0-2 and 1 in 17 of length 3 (thorough: all), lengths 3-699 (2999) x positions x boundary bytes; order: 156 x 156 pairs x 5 common prefixes; stores: 13 functions x 3 key shapes x 4 (5) sizes x 3 page sizes x 2 bucket counts x 3 sessions',
  note='Complete for short keys; longer keys by every length and position with boundary bytes. Characters above 127 count as negative in HashFunc.h, as on every machine the tests run on.')

P('P25', 'The page pool keeps every page exactly and gives it to one thread at a time',
  'Through the page pool (ffdb_pagepool.h), for every sequence of calls: a page got has exactly the content last put back under its number, through eviction, renumbering, removal from the cache, sync and reopen; a new page gets a number no other page has; after sync and close the file holds exactly the pages put back; an open that is refused takes nothing. '
  'Threads may get, change and put back pages at the same time: under every schedule a page that one thread holds is given to no other, no change is lost, and every thread that waits for a page gets it in the end. '
  'A pool, and a database on it, never keeps more pages in memory than its cache size allows and those in use.',
  ['schedules', 'histories', 'configurations'], 'for all sequences of calls and all schedules of threads in the bound, all cache sizes from none to everything',
  'No test calls the pool itself; in the database, writers are single threads and the pages of a table fit in the cache, so that holding, waiting and eviction hardly ever meet.',
  [POOL, 'filehash/ffdb_pagepool.h', 'filehash/ffdb_cq.h'], [('get, wait, put', 'ffdb_pagepool.c: ffdb_pagepool_get_page, ffdb_pagepool_put_page'), ('eviction', 'ffdb_pagepool.c: _ffdb_pagepool_reuse_bkt, _ffdb_pagepool_load_new_page'), ('renumbering and removal', 'ffdb_pagepool.c: ffdb_pagepool_change_page, ffdb_pagepool_delete'), ('flush', 'ffdb_pagepool.c: _ffdb_pagepool_sync_i')],
  [b('p25.cpp'), b('p25.cpp', 'sched', **{'with': ['kv.cpp', 'ctlsched.cpp'], 'cflags': '-DTHREADS', 'wrap': WRAPT, 'mainflags': '-fsanitize=thread'})],
  technique='stateless exploration of the real page pool: all call sequences in the bound against a map of pages, and all thread schedules within preemption and spurious-wakeup bounds under the controlled scheduler with a race, deadlock and use-after-free detector',
  bounds='all sequences of 4 (thorough: 5) of 20 calls x 3 cache sizes; page numbers that share a queue; 2-3 threads x 1-2 of 7 programs x 3 cache sizes, preemption bound 2-3; memory for every cache size up to 16 (40) pages',
  note='Exhaustive within the bound. Sync while another thread changes a page it holds is not claimed. ' + REF)
