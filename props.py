# The properties, and how they're checked.  gen.py makes properties.jsonl and MANIFEST.json of it.
NA = []
P = []
def prop(id, title, statement, over, all, why, files, mech, observe, tech, note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, level=level))
CORE = 'bfffs-core/src/'

prop('C01', 'The block cache is an exact LRU cache within its capacity',
     'Whatever the history of insertions (of blocks that fit), lookups, removals and clearings, a lookup in the block cache returns exactly the bytes inserted under that key or nothing, the cache never holds more bytes than its capacity, its reported size is the sum of what it holds, and what gets evicted is always the least recently used. Peeking does not count as use, and handles stay valid after eviction. Inserting different data under a resident key is refused loudly.',
     ['histories'], 'all sequences of cache operations, capacities, entry sizes and keys',
     'The unit tests run about a dozen fixed sequences of up to three entries.',
     [CORE + 'cache/mod.rs', CORE + 'cache/lru.rs'],
     [('intrusive LRU list in a hash map', CORE + 'cache/lru.rs'), ('eviction in insert', CORE + 'cache/lru.rs')],
     ['Cache::insert/get/get_ref/remove/drop_cache/size'],
     'stateful model-based testing against a list model of LRU', 'Random histories, shrunk; every key and the size are compared after every step. Assumes callers never insert more than the capacity at once.')
prop('C02', 'Simultaneous reads of one block share one disk read and all complete',
     'When several tasks read the same uncached block, only one disk read is in progress at a time and every reader gets the block as read, with later readers served from the cache. If that read fails or its reader is cancelled, then the waiting readers complete too, with an error, and the block can be read again later. No reader ever waits forever.',
     ['schedules', 'fault_sequences'], 'all interleavings of readers, completions, failures, cancellations and evictions',
     'No stable test covers sharing at all, and none has failures, cancellations or evictions.',
     [CORE + 'cache/mod.rs', CORE + 'ddml/ddml.rs', CORE + 'idml/idml.rs'],
     [('pending insertions', CORE + 'cache/mod.rs: get_or_insert!')],
     ['the futures that readers await', 'the number of fetches started'],
     'stateful testing of the real futures with a harness-owned scheduler', 'The harness owns every poll, completion and failure. A stuck reader is recognised as not woken after its read finished, not by a time-out.')
prop('C03', 'Write-back credit is conserved',
     'Credit for dirty data that is borrowed, split, halved, merged and repaid in any way never adds up to more or less than what was borrowed, no piece is ever negative, and after everything is repaid the whole of the capacity can be borrowed again, and no more. Comparisons and arithmetic on credit agree with its size in bytes.',
     ['histories', 'inputs'], 'all histories of credit operations and sizes',
     'The tests check single operations on a few sizes.',
     [CORE + 'writeback/writeback.rs'], [('shifted atomic credit', CORE + 'writeback/writeback.rs: Credit')],
     ['WriteBack::borrow/repay', 'Credit::split/atomic_split/isplit/halve/take/extend'],
     'stateful testing against an integer model', 'Random histories, shrunk.')
prop('C04', 'Dirty data stays under the limit and waiting writers are served in order',
     'Outstanding write-back credit never exceeds the capacity. A writer that must wait is served in order of arrival, is not overtaken by smaller requests, and is served as soon as enough has been repaid. A writer that gives up while still waiting neither loses credit nor holds up those behind him when credit is next repaid.',
     ['histories'], 'all histories of borrowing, waiting, repaying in parts and giving up',
     'The tests check one or two sleepers with fixed sizes.',
     [CORE + 'writeback/writeback.rs'], [('sleeper queue and flag bit', CORE + 'writeback/writeback.rs: borrow, awaken, repay')],
     ['WriteBack::borrow/repay'],
     'stateful testing of the real futures with a harness-owned scheduler', 'Single-threaded interleavings of whole operations; C15 covers threads.')
prop('C05', 'RAID reconstruction recovers every recoverable stripe exactly',
     'For every supported number of data and parity columns, and any set of lost columns no larger than the parity, in any mix of data and parity, the lost data is reconstructed byte for byte from the surviving columns, and nothing else is written.',
     ['inputs', 'configurations', 'fault_sequences'], 'all stripe shapes, contents, buffer splits and sets of erased columns',
     'The tests try a few geometries and erasure patterns on fixed-size buffers.',
     [CORE + 'raid/codec.rs', 'bfffs-isa-l/src/lib.rs'], [('Reed-Solomon decode matrices', CORE + 'raid/codec.rs: decode, generate_decode_tables')],
     ['Codec::encode, decode'],
     'round-trip testing, with an independent GF(256) model', 'Random shapes up to 3 parity columns and 60+ data columns, random erasures.')
prop('C06', 'All ways of computing parity agree with Reed-Solomon coding',
     'Parity computed at once, incrementally one data column at a time, or over scattered buffers of any segmentation is the same, equals the defined Galois-field combination of the data, and writes nothing outside its buffers.',
     ['inputs', 'configurations'], 'all stripe shapes, contents and buffer segmentations',
     'The tests compare a few fixed segmentations.',
     [CORE + 'raid/codec.rs', CORE + 'raid/sgcursor.rs', 'bfffs-isa-l/src/lib.rs'], [('encode variants', CORE + 'raid/codec.rs'), ('scatter-gather cursor', CORE + 'raid/sgcursor.rs')],
     ['Codec::encode, encodev, encode_update'],
     'differential testing between variants and an independent GF(256) model', 'Random shapes and segmentations; guard bytes around the buffers.')
prop('C07', 'The declustered RAID layout is a fault-tolerant bijection',
     'For every legal geometry, mapping chunks to disk locations is one to one, its inverse mapping returns the original chunk, no two chunks of a stripe share a disk, every location of a repetition is used, and data and parity are spread evenly over the disks. Illegal geometries are refused.',
     ['configurations', 'inputs'], 'all geometries (number of disks, stripe size, parity) and all chunk addresses',
     'The tests check five small geometries and a few addresses.',
     [CORE + 'raid/prime_s.rs', CORE + 'raid/declust.rs'], [('PRIME-S permutations', CORE + 'raid/prime_s.rs: id2loc, loc2id')],
     ['Locator::id2loc, loc2id'],
     'algebraic properties over generated geometries', 'Whole repetitions are enumerated for random geometries.')
prop('C08', 'Iterating over a RAID layout agrees with mapping each chunk',
     'Walking any range of chunks of a declustered layout from any start yields exactly the chunks of the range, data and parity, in order, at the places that mapping each of them separately yields. The stated number of chunks that a read of consecutive data takes from one disk is never exceeded.',
     ['configurations', 'inputs'], 'all geometries and ranges',
     'The tests walk a few ranges of four geometries.',
     [CORE + 'raid/prime_s.rs', CORE + 'raid/declust.rs'], [('incremental iterator', CORE + 'raid/prime_s.rs: PrimeSIter')],
     ['Locator::iter, parallel_read_count'],
     'differential testing of iterators against the point mapping', 'Random geometries and ranges across repetition boundaries.')
prop('C09', 'Byte-stream helpers and checksums depend only on the bytes',
     'Checksumming, measuring, walking, zero-filling and padding of scattered buffers give what they would give on the concatenated bytes, whatever the segmentation, and never modify their inputs. Padded data consists of whole blocks: the data, followed by zeros.',
     ['inputs'], 'all contents, segmentations, offsets and lengths',
     'The tests use two or three fixed segmentations.',
     [CORE + 'util.rs', CORE + 'raid/sgcursor.rs'], [('checksum and sglist helpers', CORE + 'util.rs')],
     ['checksum_sglist, checksum_iovec, copy_and_pad_sglist, sglist_len, zero_sglist, SGCursor'],
     'differential testing against flat byte vectors', 'Random contents and segmentations.')
prop('C10', 'On-disk and wire types decode to what was encoded',
     'Disk addresses, record numbers, transaction numbers, UUIDs, dataset properties and errors survive encoding and decoding unchanged, in exactly the bytes of the stated format and size; truncated input is refused. They are ordered by their parts, in order, and arithmetic on transaction numbers is exact.',
     ['inputs'], 'all values',
     'The tests encode one or two values of some types.',
     [CORE + 'types.rs', CORE + 'property.rs'], [('derived and custom encodings', CORE + 'types.rs')],
     ['serde, speedy and TypicalSize implementations'],
     'round-trip testing', 'Random and extreme values.')
prop('C11', 'Errors are reported as the operating system\'s numbers',
     'Every operating system error number that has a named error is converted to that error and back to the same number, from system calls and from the wire alike. Every other number, and every error without a number, becomes the unknown error, and nothing crashes.',
     ['inputs'], 'all errors and all integers',
     'The tests check a handful of errors.',
     [CORE + 'types.rs'], [('Error enumeration', CORE + 'types.rs: Error')],
     ['From<Error> for i32, From<nix::Error> ...'],
     'exhaustive and random conversion there and back', 'All errors, all small integers and random ones.')
prop('C12', 'Properties parse, print and inherit consistently',
     'A dataset property setting is accepted if and only if its name is settable and its value legal (record sizes are the powers of two from 4 KiB to 1 MiB), an accepted setting prints as something that is accepted again with the same meaning, and inheritance turns a mount point into the base of the children\'s and leaves everything else alone.',
     ['inputs'], 'all strings and properties',
     'The tests check a list of examples.',
     [CORE + 'property.rs'], [('FromStr and Display', CORE + 'property.rs')],
     ['Property::from_str, Display, PropertySource'],
     'round-trip and grammar-based testing', 'Legal and near-legal strings. Both spellings of 1 MiB that the tests insist on are allowed.')
prop('C13', 'Pool specifications are parsed exactly as the grammar says',
     'A pool specification on the command line is accepted if and only if it is a list of disks, of mirrors, or of RAID groups of disks or of mirrors, and then yields exactly the devices, groupings and parameters that were written, in order. Anything else is refused without a crash.',
     ['inputs'], 'all specifications',
     'The tests parse five specifications, all legal.',
     ['bfffs/src/pool_create_parser.lalrpop', 'bfffs/src/bin/bfffs/pool_create_ast.rs'], [('LALRPOP grammar', 'bfffs/src/pool_create_parser.lalrpop')],
     ['PoolParser::parse'],
     'grammar-based generation against an independent recursive-descent parser', 'Printed specifications and random word sequences.')
prop('C14', 'The Galois-field routines obey field algebra',
     'Matrix generation, inversion and multiplication over GF(256) obey the field\'s laws: an inverted matrix times the original is the identity, singular matrices are reported, generated matrices have invertible submatrices, and coding equals matrix multiplication for all lengths and alignments.',
     ['inputs'], 'all matrices, vectors, lengths and alignments',
     'The crate\'s own tests check one or two matrices.',
     ['bfffs-isa-l/src/lib.rs'], [('ISA-L bindings', 'bfffs-isa-l/src/lib.rs')],
     ['gf_invert_matrix, gf_gen_cauchy1_matrix, ec_encode_data, ec_encode_data_update'],
     'algebraic properties against an independent GF(256) model', 'Random matrices, including singular ones.')
prop('C15', 'Write-back credit survives every thread interleaving',
     'Threads that concurrently borrow, split and repay write-back credit never deadlock or sleep without a reason, never have more than the capacity on loan, and leave all of the capacity available afterwards.',
     ['schedules', 'programs'], 'all programs of a few threads, and all interleavings of their atomic steps',
     'The tests are single-threaded.',
     [CORE + 'writeback/writeback.rs'], [('lock-free fast path and sleeper queue', CORE + 'writeback/writeback.rs: borrow, repay, awaken')],
     ['WriteBack::borrow/repay', 'Credit::atomic_split'],
     'randomised concurrency testing (generated programs and schedules, shuttle)', 'The real code is compiled against locks and atomics that a seeded scheduler controls. Sequentially consistent interleavings only.')
prop('C16', 'Cached reads survive every thread interleaving',
     'Threads that concurrently read the same blocks, while reads fail or are abandoned and blocks are evicted, never deadlock, never read a block twice at the same time, get the right data or an error that a read really had, and can read every block afterwards.',
     ['schedules', 'programs', 'fault_sequences'], 'all programs of a few threads, and all interleavings of their lock operations',
     'The tests are single-threaded.',
     [CORE + 'cache/mod.rs'], [('pending insertions', CORE + 'cache/mod.rs: get_or_insert!')],
     ['the futures that readers await'],
     'randomised concurrency testing (generated programs and schedules, shuttle)', 'As C15.')
prop('C20', 'The B+tree is an ordered map, whatever its shape and history',
     'A Tree behaves as an ordered map: insert, remove, get, range, range_delete and last_key give what an ordered map would, for any history, fan-out and key distribution, also after flushing, after reopening from disk, after cleaning a zone, and while other tasks change other keys, flush or clean. Every record it writes is reachable or gets deleted, exactly once; after a flush nothing is dirty and all write-back credit is returned; cleaning leaves none of the tree in the zone.',
     ['inputs', 'histories', 'schedules'], 'all histories, fan-outs and task interleavings',
     'The tests build a few trees of fixed shapes by hand; splits, merges, steals, in-flush and in-clean changes interact.',
     [CORE + 'tree/tree/mod.rs', CORE + 'tree/node.rs', CORE + 'util.rs'],
     [('insert, remove, range_delete, flush, clean_zone', CORE + 'tree/tree/mod.rs'), ('split, merge, take_low/high', CORE + 'tree/node.rs')],
     ['Tree::insert, remove, get, range, range_delete, last_key, flush, check, clean_zone, addresses, serialize, open'],
     'model-based stateful testing against BTreeMap, over a DML that checks how it is used; generated task interleavings',
     'Trees of up to a few hundred items with fan-outs of 4 to 16. Concurrent cases use a cache that never evicts.')
prop('C21', 'A file system behaves like a POSIX one, whatever goes on below',
     'Files, directories, links, special files, attributes, extended attributes, sparse data, record sizes and readdir behave as POSIX says (and as FreeBSD does for lseek holes, deallocation and extended attributes) for any history of operations: each gives the right result or error, changes exactly what it should including times, link counts and space used, and everything can be read back. Syncs, background flushes, cache drops, cleaning, remounting and exporting and importing the pool change nothing that can be seen, and the pool always passes its own check. Names and attributes whose hashes collide are no exception.',
     ['inputs', 'histories'], 'all histories of file system operations and pool events, over all pool layouts',
     'The tests run a few operations at a time on one disk; defects hide where operations combine with flushing, hash collisions, record boundaries and remounts.',
     [CORE + 'fs.rs', CORE + 'fs_tree.rs', CORE + 'database/database.rs', CORE + 'idml/idml.rs', CORE + 'ddml/ddml.rs', CORE + 'vdev_file.rs', CORE + 'cleaner.rs'],
     [('every operation', CORE + 'fs.rs: impl Fs'), ('hash tables in trees', CORE + 'fs.rs: mod htable'), ('the object that flushes and syncs', CORE + 'database/database.rs: Syncer')],
     ['Fs, Database::check/clean/drop_cache/sync_transaction/shutdown, Manager::import_by_name'],
     'model-based stateful testing against a model of a POSIX file system, on the whole stack over simulated disks',
     'Histories of up to 120 operations on 1 to 12 simulated disks of up to 40 MB. What the VFS guarantees to the file system is assumed. Operations are issued one at a time.')
prop('C22', 'A crash loses nothing that was synced, and breaks nothing',
     'Whenever the machine crashes and whichever of the writes not yet synchronised reached the disks, the pool can be imported again, passes its own check, and its file systems are in exactly the state they had at some moment between the last sync that had finished and the crash: nothing synced is lost, nor what was done five seconds or more before, as it syncs by itself that often, and no half-done operation or mix of moments can be seen. The pool then works as ever, and cleaning, reuse of zones and further crashes do no harm.',
     ['crash_points', 'histories'], 'all histories, all crash points in the stream of disk writes, and all subsets of unsynchronised writes that are lost',
     'No test crashes. What survives depends on the order of writes and barriers to several disks, which only a simulated disk controls.',
     [CORE + 'database/database.rs', CORE + 'idml/idml.rs', CORE + 'ddml/ddml.rs', CORE + 'cluster.rs', CORE + 'pool.rs', CORE + 'label.rs', CORE + 'raid/vdev_raid.rs', CORE + 'mirror.rs', CORE + 'vdev_block.rs', CORE + 'vdev_file.rs'],
     [('sync and label writing', CORE + 'database/database.rs: sync_transaction'), ('allocated space and free zones', CORE + 'cluster.rs: FreeSpaceMap')],
     ['Manager::taste, import_by_name', 'Database::check', 'the file system after import'],
     'model-based stateful testing with generated crash points and lost-write sets on simulated disks',
     'Write granularity is the 4 KiB block: blocks are not torn. One recorded defect (the space map\'s first copy is overwritten before the first label) is excluded by treating that pair as atomic, and has its own directed case.')
prop('C23', 'An array of disks is one flat disk, as long as enough of them work',
     'A RAID array or mirror stores what is written to each zone and returns exactly that for any range, however writes are split, overlapped, flushed, padded or finished, and also while other operations are still in progress. It does so as long as no more members than its redundancy are faulted, missing at import or fail to read; beyond that it reports an error, never wrong data. Long reads offer the right reconstruction for silent corruption within the redundancy. Zones are disjoint and within the device. Labels and space maps can be written and read whichever members are present, and status reports the right health.',
     ['inputs', 'histories', 'fault_sequences'], 'all geometries, histories and sets of failures',
     'The tests use a few geometries, aligned reads and whole-disk failures of mocks.',
     [CORE + 'raid/vdev_raid.rs', CORE + 'raid/null_raid.rs', CORE + 'raid/prime_s.rs', CORE + 'raid/codec.rs', CORE + 'mirror.rs', CORE + 'vdev_block.rs', CORE + 'vdev_file.rs'],
     [('the RAID transform', CORE + 'raid/vdev_raid.rs: read_at_one, read_at_multi, read_long, write_at_*'), ('mirrors', CORE + 'mirror.rs')],
     ['VdevRaidApi, Vdev, raid::Manager'],
     'model-based stateful testing with generated faults on simulated disks',
     'Prime numbers of members, as PRIME-S needs. A mirror within an array counts as failed if any of its disks fails to read. Disks of whole zones (see known findings).')
prop('C24', 'Failed disks lose no files while there is enough redundancy',
     'As long as no array or mirror has lost more disks than its redundancy can replace, file systems behave as if nothing had happened: whether disks are faulted by the administrator, absent at import, fail to read, or silently return wrong data, and in which order, and combined with writing, syncing, cleaning, exporting and importing. Everything written before and after can be read, the pool passes its own check, and its status tells which disks are missing.',
     ['histories', 'fault_sequences'], 'all histories of file system operations, pool events and failures within the redundancy, over all redundant layouts',
     'The tests fault one disk of an idle pool; defects hide in records and stripes that are half written or not yet flushed when a disk fails.',
     [CORE + 'raid/vdev_raid.rs', CORE + 'mirror.rs', CORE + 'vdev_block.rs', CORE + 'ddml/ddml.rs', CORE + 'pool.rs', CORE + 'cluster.rs', CORE + 'raid/mod.rs'],
     [('verification and reconstruction of records', CORE + 'ddml/ddml.rs: DDML::read'), ('degraded reads and writes', CORE + 'raid/vdev_raid.rs'), ('faulting', CORE + 'pool.rs: fault')],
     ['Fs', 'Database::fault, status, check', 'Manager::taste, import_by_name'],
     'model-based stateful testing against a model of a POSIX file system, with generated disk failures on simulated disks',
     'As C21. Disks that were faulted are not returned to arrays (see known findings). A mirror within an array counts as failed if any of its disks gives errors or wrong data.')
prop('C25', 'A replaced disk holds everything its mirror did',
     'A disk attached to a mirror, or one that returns to it at import after having been faulted or absent while others were written, is rebuilt by itself within seconds, and is then as good as the others: these can fail, and all files are still there, also after exporting and importing. Status shows a disk as online only when it has been rebuilt.',
     ['histories', 'fault_sequences'], 'all histories of file system operations, pool events, failures and replacements',
     'The tests rebuild one zone with mocks, or one disk of a small idle pool.',
     [CORE + 'cluster.rs', CORE + 'mirror.rs', CORE + 'raid/vdev_raid.rs', CORE + 'ddml/ddml.rs', CORE + 'pool.rs', CORE + 'raid/mod.rs'],
     [('which zones to repair', CORE + 'cluster.rs: order_zones_for_repair, repair_mirror_step'), ('copying', CORE + 'mirror.rs: repair_zone; ' + CORE + 'raid/vdev_raid.rs: repair_mirror_zone'), ('the task', CORE + 'ddml/ddml.rs: MirrorRepairTask')],
     ['Database::attach, fault, status, check', 'Fs', 'Manager::taste, import_by_name'],
     'model-based stateful testing against a model of a POSIX file system, with generated disk failures and replacements on simulated disks',
     'Nothing is written while a disk is being rebuilt, and a transaction is synced before exporting (see known findings).')
prop('C26', "Users of a pool don't disturb each other",
     'When several users work at once in different directories and file systems of a pool, each sees exactly what it would alone: every operation gives the right result, and afterwards everyone\'s files are as they should be, also after syncing, exporting and importing. Files that nobody changes read the same all the time. Nothing deadlocks, and the pool passes its own check, whatever is synced, flushed, evicted and cleaned meanwhile.',
     ['histories', 'schedules'], 'all histories of several users, and all interleavings of their operations, of background tasks and of disk accesses',
     'The tests use a file system from one task at a time.',
     [CORE + 'fs.rs', CORE + 'database/database.rs', CORE + 'idml/idml.rs', CORE + 'ddml/ddml.rs', CORE + 'tree/tree/mod.rs', CORE + 'writeback/writeback.rs', CORE + 'cache/mod.rs', CORE + 'cluster.rs'],
     [('transactions', CORE + 'database/database.rs: fswrite, sync_transaction_priv'), ('locking of trees', CORE + 'tree/tree/mod.rs'), ('moving records', CORE + 'idml/idml.rs: clean_zone, delete, pop')],
     ['Fs', 'Database::check, clean, drop_cache, sync_transaction', 'Manager::import_by_name'],
     'model-based stateful testing of several users at once, each against its own model, over generated interleavings on simulated disks',
     'Two to six users. Tasks are interleaved where they await, not within a poll. Operations on one file are not concurrent, as the VFS serialises changes of a file.')
prop('C27', 'Datasets form a hierarchy, from which they inherit properties',
     'Creating, destroying, listing, mounting and unmounting datasets by name works as in a tree of directories: each dataset has one parent, which exists, and its own ID and files; errors are the right ones and change nothing; names of other pools or malformed names are never taken for one of the pool\'s datasets; datasets that are mounted or have children aren\'t destroyed. A property is what was set on the dataset, or else on its nearest ancestor, or else the default, with the right source, and it takes effect when mounting. Destroying datasets frees all of their space, and failed creations use none. All of it survives exports and imports.',
     ['histories', 'inputs'], 'all histories of operations on datasets, and names',
     'The tests have a handful of datasets with one operation each.',
     [CORE + 'controller.rs', CORE + 'database/mod.rs', CORE + 'database/database.rs', CORE + 'property.rs', CORE + 'fs.rs'],
     [('names and mounting', CORE + 'controller.rs: Controller'), ('the tree of trees', CORE + 'database/mod.rs: Forest'), ('inheritance', CORE + 'fs.rs: get_prop_configurable')],
     ['Controller: create_fs, destroy_fs, list_fs, get_prop, set_prop, new_fs, unmount, check', 'Fs::statvfs'],
     'model-based stateful testing against a tree of datasets, on the whole stack over simulated disks',
     'Operations one at a time. unmount(2) is recorded, not performed. The mountpoint of mounted file systems is not changed (see known findings).')
prop('C28', 'Space that is no longer used is free, and can be used again',
     'Destroying a file system frees every block that it used, whatever was done with it before and whenever it was synced; deleting all of its files frees all but a few. What was freed can be used again: as long as no more than a quarter of the pool is in use at once and the cleaner runs, any amount of data can be written, deleted and overwritten, without running out of space and without damaging other data.',
     ['histories'], 'all histories of file system operations, syncs, evictions, exports and imports, and cleaner runs',
     'The tests free single blocks and clean single zones, with mocks.',
     [CORE + 'fs.rs', CORE + 'idml/idml.rs', CORE + 'ddml/ddml.rs', CORE + 'cleaner.rs', CORE + 'cluster.rs', CORE + 'pool.rs', CORE + 'tree/tree/mod.rs', CORE + 'fs_tree.rs'],
     [('freeing', CORE + 'idml/idml.rs: delete, pop; ' + CORE + 'cluster.rs: FreeSpaceMap'), ('what inodes own', CORE + 'fs.rs: do_delete_inode, do_unlink; ' + CORE + 'fs_tree.rs: FSValue::dpop, ddrop'), ('cleaning', CORE + 'cleaner.rs; ' + CORE + 'idml/idml.rs: clean_zone')],
     ['Fs', 'Database::destroy_fs, stat, clean, check', 'Manager::import_by_name'],
     'stateful testing with the used space as an invariant across create and destroy, and generated churn in small pools, on simulated disks',
     'Deleting all files may leave up to 6 more blocks in use than the empty file system had. At most 16 records are written at a time, and pools are never filled up (see known findings).')
prop('C29', "Disk operations are scheduled without losing, mixing up or delaying any",
     'Of the operations requested of a disk, each is completed exactly once, with the right data and result, in whatever order they are requested, merged and completed, also if the system is short of resources for asynchronous operations. Not waiting for some of them any more doesn\'t affect the others. A sync covers everything requested before it. Zones that are written in order are written in order on the disk, too. No more operations than the optimum are in flight at once, and none once a disk has been removed. Labels are not overwritten. An error affects only the operations that it hit and those that were merged with them.',
     ['histories', 'schedules', 'fault_sequences'], 'all histories of operations on a disk, orders of completion, shortages of resources, cancellations and I/O errors',
     'The tests schedule a few operations on mocks.',
     [CORE + 'vdev_block.rs', CORE + 'vdev_file.rs'],
     [('the elevator', CORE + 'vdev_block.rs: Inner::sched, pop_op, issue_all'), ('merging', CORE + 'vdev_block.rs: BlockOp::can_accumulate, accumulate'), ('shortages', CORE + 'vdev_block.rs: issue_fut; ' + CORE + 'vdev_file.rs: ReadAt and so on'), ('removal', CORE + 'vdev_block.rs: RemoveFut')],
     ['VdevBlock: read_at, readv_at, write_at, writev_at, sync_all, erase_zone, open_zone, finish_zone, remove'],
     'model-based testing of generated operation histories against the contents of a disk, with a log of the simulated disk as oracle for the order',
     'Operations that overlap are not in flight at once. Asynchronous I/O is a stand-in that runs operations with generated delays, limits and errors.')
prop('C30', "A mounted file system behaves like a POSIX one, whatever the kernel remembers",
     "Through the FUSE server, a file system gives the same results as without it: whatever names and files the kernel has looked up, cached, forgotten and looked up again, and also if an NFS server finds files by number and asks for \"..\". Every reply's attributes are those that the file has, with its space in blocks of 512 bytes; directories are listed completely, also from any offset; lists and values of extended attributes fit into the buffer or give ERANGE; errors are the operating system's numbers; moving a directory below itself fails with EINVAL. The server never fails an internal assertion, and deletes a file that nothing links to when it is forgotten, or after a forced unmount. Unmounting syncs everything. All that also holds for requests that the kernel has sent at once, as for different vnodes it does.",
     ['histories', 'schedules'], 'all histories of FUSE requests that the kernel may send for a history of file system operations, caching and forgetting at any point, and of remounting; and all schedules of requests by several users, of different files or of the same ones by different links',
     'The tests send single requests to a mock of the file system.',
     ['bfffs/src/bin/bfffsd/fs.rs', CORE + 'fs.rs'],
     [('the caches of files and names', 'bfffs/src/bin/bfffsd/fs.rs: cache_file, lookup, forget, rename'), ('replies', 'bfffs/src/bin/bfffsd/fs.rs: do_getattr, readdir, getxattr, listxattr'), ('finding files by number', CORE + 'fs.rs: ilookup')],
     ['FuseFs, as a fuse3::raw::Filesystem'],
     "model-based stateful testing: a generated kernel's requests to the real FUSE server, against a model of a POSIX file system, on simulated disks",
     "The kernel looks up names before it renames or removes them, changes a file by one request at a time, and forgets a file all at once and while nothing else uses it, as FreeBSD's does. A link doesn't count as a lookup, as the server has it.")
prop('C31', "Damage to the disks is noticed: wrong data are never returned",
     "Whatever parts of the disks are damaged while a pool is exported or mounted, beyond what its redundancy can repair, every later read, lookup, listing, seek or attribute returns what was stored or an error, and never other contents, or that something doesn't exist. That holds for changed bytes, lost and misdirected writes of data and metadata, damaged labels and damaged free-space maps. Nothing panics because of what a damaged block contains. With one of a disk's two labels damaged the pool can be imported, and all of it can be read.",
     ['faults', 'inputs'], 'all histories of file system operations followed by any damage to any blocks of any disks',
     'The tests corrupt single blocks of mocked disks.',
     [CORE + 'ddml/ddml.rs', CORE + 'label.rs', CORE + 'cluster.rs', CORE + 'vdev_block.rs', CORE + 'fs.rs'],
     [('checksums of records', CORE + 'ddml/ddml.rs: read, verification against the DRP'), ('labels', CORE + 'label.rs: LabelReader; vdev_block.rs: read_label'), ('free-space maps', CORE + 'cluster.rs: SpacemapOnDisk::deserialize')],
     ['Fs, Manager'],
     "fault injection with a reference model: generated histories, generated damage to simulated disks, and reading everything back; each answer is compared with the model's",
     "Damage to a block is by chance, so that one that happens to have the same checksum isn't generated. Only reading is done after damage, because modifications of what can't be read panic (a recorded finding), as does mounting if the file system's own records can't be read.")
prop('C32', 'Placement, parity, checksums and encodings on the disks never change',
     "The format of what is on the disks is fixed. For every legal geometry, chunk ids are placed where the definition of PRIME-S puts them (disk ((s·m+b)·(z+1)) mod n; offset by rank within the iteration, k stripe units per disk and iteration), and id2loc, loc2id and iter all agree with that; parity is the XOR of the data for one parity column, and the Cauchy code (coefficient 1/((k+i) xor j) in GF(2^8), polynomial 0x11d) for more, and a stripe written that way can be decoded; checksums are MetroHash64, seed 0, of the contents however split up, and the last block of a record is padded with zeros; addresses, record ids, transaction numbers, UUIDs and properties have fixed encodings. So a pool written by one version can be read by another.",
     ['inputs'], 'all geometries, chunks, data and values',
     'The tests check a few layouts and golden vectors; a change that is self-consistent passes round-trip tests and still orphans every existing pool.',
     [CORE + 'raid/prime_s.rs', CORE + 'raid/codec.rs', 'bfffs-isa-l/src/lib.rs', CORE + 'util.rs', CORE + 'types.rs', CORE + 'property.rs'],
     [('the disk and offset functions', CORE + 'raid/prime_s.rs: id2loc, loc2id, iter'), ('the distribution matrix', CORE + 'raid/codec.rs: new'), ('checksums and padding', CORE + 'util.rs'), ('encodings', CORE + 'types.rs, property.rs')],
     ['PrimeS', 'Codec', 'checksum_sglist', 'checksum_iovec', 'copy_and_pad_sglist', 'speedy encodings'],
     'differential property-based testing against independent implementations of the layout, the code, the checksum and the encodings',
     'The format of the present version is taken to be the right one.')
prop('C33', 'Pools written by earlier versions can be imported, read and used',
     "A pool on disks as an earlier version left them (one disk, mirrors, RAID, several clusters, many zones, nested file systems with their own properties) can be imported, with all disks or as few as its redundancy needs, in any order. All file systems, properties, names, attributes, extended attributes and contents are as they were, and it can go on being used as any other pool.",
     ['inputs', 'histories', 'faults'], 'all pools of earlier versions and all further histories',
     'The tests only ever read what the same build wrote, so that a format change that is self-consistent passes them.',
     [CORE + 'label.rs', CORE + 'fs_tree.rs', CORE + 'cluster.rs', CORE + 'tree/node.rs', CORE + 'ddml/ddml.rs', CORE + 'vdev_block.rs'],
     [('labels', CORE + 'label.rs'), ('keys and values of file systems', CORE + 'fs_tree.rs'), ('free-space maps', CORE + 'cluster.rs'), ('nodes of trees', CORE + 'tree/node.rs')],
     ['Manager', 'Database', 'Fs'],
     'model-based stateful testing that begins with stored disk images and the models of their contents: generated missing disks, histories, remounts and reimports',
     "The images (full/golden) were written by this work's version of the code; each comes with the model of its contents.")
prop('C34', 'The daemon answers every request in kind, and obeys only its own user',
     "Every request to bfffsd gets one response, of the request's kind, which says what was done or why not. Requests of users other than the daemon's that would change, mount, unmount, fault, attach, clean or drop anything get EPERM and do nothing; what they may read is what the daemon's user reads. Several requests at once, from several clients, have the results that they'd have in some order, for creating, destroying, mounting, unmounting, setting and reading properties. Listing through the client library gives every dataset beneath the given one, to the given depth, once and after its parent, whatever their number and the lengths of their names, and can be resumed. A file system is mounted where its mountpoint property says, is not mounted after a failed mount, and unmounting one never unmounts another. Messages that aren't requests, and clients that leave early, end their own connections at most. What either end decodes is what the other encoded.",
     ['inputs', 'schedules', 'histories'], 'all sequences of requests from all users, orders in which concurrent requests are served, messages, datasets and properties',
     'The tests of the daemon need root on FreeBSD with a FUSE module; they try one request of each kind, with one client and few datasets.',
     ['bfffs/src/bin/bfffsd/main.rs', 'bfffs/src/lib.rs', CORE + 'rpc.rs', CORE + 'controller.rs'],
     [('permissions and responses', 'bfffs/src/bin/bfffsd/main.rs: process_rpc'), ('paging of lists', 'bfffs/src/lib.rs: fs_list; main.rs: FsList'), ('races between requests', CORE + 'controller.rs: the lock of filesystems'), ('encoding', CORE + 'rpc.rs: LeafStatus, Attach')],
     ['Bfffsd::handle_client', 'the client library Bfffs', 'rpc::Request and Response'],
     "model-based stateful testing of the real server and client library over simulated sockets: several users' generated requests, some at once (linearizability by trying every order), and generated garbage; round-trip testing and mutation of messages",
     "Names and properties of one dataset fit into one message of 4 kB, and stat requests name a property. Sockets, mount(2) and unmount(2) are simulated.")

prop('C35', 'The command line does what it is told, and shows what is',
     "\"bfffs pool create\" makes a pool of exactly the disks, mirrors and RAID groups that were specified, with the zone size and properties given. The fs and pool commands do to each dataset or device named, in order, what the daemon does on request, and exit with status 1 and the error's text when it refuses; settings that aren't legal are refused with status 2 before anything is done. \"fs get\" and \"fs list\" print a line for every dataset and property selected by name, depth and source, and no other, with the fields asked for, in order, sorted as asked; \"pool list\" and \"pool status\" print every pool, RAID, mirror and disk with its health. \"bfffs check\" succeeds if and only if the pool is consistent.",
     ['inputs', 'histories'], 'all command lines and all states of a pool and its datasets',
     "The unit tests parse a few command lines, without running them; the others need root on FreeBSD, and try one example of each.",
     ['bfffs/src/bin/bfffs/main.rs', 'bfffs/src/lib.rs', CORE + 'controller.rs', CORE + 'property.rs'],
     [('creating pools', 'bfffs/src/bin/bfffs/main.rs: pool::Builder'), ('selecting and sorting', 'bfffs/src/bin/bfffs/main.rs: fs::Get, fs::List'), ('status', 'bfffs/src/bin/bfffs/main.rs: pool::Status'), ('check', 'bfffs/src/bin/bfffs/main.rs: Check')],
     ['the main function of bfffs'],
     "model-based stateful testing of the real command, with generated command lines, against the real daemon and pools on simulated disks: its output, exit status and effects are compared with a model's",
     "clap, tabular, prettytable and si-scale are replaced by simple equivalents, as they aren't available offline, so that how cells are padded isn't checked.")
prop('C36', 'Every disk is used for the pool that its label names, and for no other',
     "Among the disks that the system is shown, in whatever order, those with at least one intact label are recognized, and nothing else is: not blank, short or foreign files, nor disks with both labels damaged. The pools that can be imported are those of the recognized disks, each listed once, by its own name and UUID, until it is imported. Importing one by UUID or by name opens that pool, never another one with a similar name, with exactly its own disks, each in the place that it had, and exactly its own contents; pools of the same name remain apart, and importing one doesn't affect the others. A disk that was formatted again, for another pool, belongs to that one only, and nothing that was on it shows up there. Importing what isn't there, or not any more, fails with ENOENT.",
     ['inputs', 'histories', 'faults'], 'all sets of pools, disks missing, damaged, used again or foreign, orders of finding them and orders of importing the pools',
     'The tests import a single pool from intact disks.',
     [CORE + 'pool.rs', CORE + 'database/mod.rs', CORE + 'vdev_block.rs', CORE + 'mirror.rs', CORE + 'raid/mod.rs', CORE + 'label.rs'],
     [('finding labels', CORE + 'vdev_block.rs: Manager::taste, read_label'), ('importing', CORE + 'pool.rs, raid/mod.rs, mirror.rs: Manager::import, open'), ('by name', CORE + 'database/mod.rs: Manager::import_by_name')],
     ['database::Manager: taste, importable_pools, import_by_name, import_by_uuid', 'Database::status'],
     "model-based property-based testing: generated pools, some on disks that others used before, generated damage and orders of tasting and importing; lists, status and contents are compared with the pools' models",
     "Not two disks have the same label. A pool that lacks too many disks, though some of each cluster, may be refused or not.")
prop('C37', "What's on the disks is accounted for, and the pool's check finds what isn't",
     "Whenever a pool is at rest after a sync, every record in the pool's index of records is referred to exactly as often as the index says, by the trees of the datasets and of the forest and by the blobs of files, extended attributes and symbolic links; every reference is to a record that exists, of the size that the index tells. No two records or tree nodes occupy the same blocks, and their blocks together are the space that the pool says is used. The allocation table is the inverse of the index; the forest lists each dataset once, beneath its parent, with the address and height of its tree; the transactions of every written tree node lie within those that its parent recorded. The pool's own check passes on every such pool, and reports a problem in one with a leaked block, a record freed early, or a node that can't be read, and the trees' check reports items out of order, nodes with too few items, wrong keys or transactions, or missing children. The debugging dumps show each node of every tree once, whatever the attributes of the files.",
     ['inputs', 'histories'], 'all histories of operations, syncs, remounts, cleaning and deletion of datasets; all kinds of files, names and attributes; all damage of the kinds named to a consistent pool',
     'The tests of the check have one tree or pool each, and none compares what a history leaves on disk with what refers to it; leaked and doubly used blocks show only much later.',
     [CORE + 'idml/mod.rs', CORE + 'tree/tree/mod.rs', CORE + 'tree/node.rs', CORE + 'database/mod.rs', CORE + 'fs.rs', CORE + 'fs_tree.rs', CORE + 'cluster.rs'],
     [('references', CORE + 'idml/mod.rs: put, pop, delete; fs.rs: moving, deleting and truncating of blobs'), ('check', CORE + 'idml/mod.rs: check; database/mod.rs: check, check_forest; tree/tree/mod.rs: check'), ('freed space', CORE + 'cluster.rs: free, FreeSpaceMap')],
     ['Database: check, dump_forest, dump_fs, dump_ridt, dump_alloct, dump_fsm', 'Tree::check'],
     "model-based stateful testing: generated histories on real pools, whose dumped structures are cross-checked by an independent auditor; fault injection, with generated damage to consistent trees and pools, which the check must notice",
     "The dumps are trusted to show what is stored; that what is stored is right is C21's.")
prop('C38', 'A record comes back as it was stored, while others are moved and removed',
     "Every record that was put into the data management layers (by address or by record number), of any size, contents and compression, is read as it was put, by any number of readers at once, from cache or disk, while its zone is being cleaned and other records are put, popped, deleted, evicted and synced. Popping a record returns its contents once and frees its space; afterwards it doesn't exist. Nothing that users do to different records at once fails, deadlocks or ends the cleaner, and the records' tables are consistent after it. Compression is used only if it saves blocks; what it yields is decompressed to the same data, garbage to an error or other data; incompressible data is stored as it is, and no record takes more blocks than its data.",
     ['inputs', 'schedules', 'histories'], 'all contents, sizes, compressions and element sizes of records; all histories of several users, and orders in which they, the disks and the cleaner run',
     'The tests of these layers use mocks of each other and one record at a time; none cleans while something else is done.',
     [CORE + 'idml/idml.rs', CORE + 'ddml/ddml.rs', CORE + 'dml.rs', CORE + 'cleaner.rs', CORE + 'cluster.rs'],
     [('moving', CORE + 'idml/idml.rs: clean_zone, move_record, move_lock'), ('removing', CORE + 'idml/idml.rs, ddml/ddml.rs: pop, delete'), ('compression', CORE + 'dml.rs: Compression')],
     ['IDML, DDML: put, get, pop, delete, evict', 'Cleaner', 'Compression::compress, decompress'],
     'model-based stateful testing with several users, generated delays, a real cleaner and a pool on simulated disks: contents against what was put, then the check of the tables; round-trip testing of compression',
     "One thread; what may happen at once is decided by generated delays of users and disks. A user doesn't use a record that it has removed, except to find that it's gone.")
