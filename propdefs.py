"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = [
 dict(id='C01', title='Committed data is durable and historical states stay readable',
  statement='After a successful commit, closing and reopening the prefix file returns, for every page written so far, exactly the bytes of its last committed write, whether that write was stored as a full page or as a difference. Every earlier committed state number keeps returning the contents the data had at that commit, no matter which later commits were made.',
  over=['histories', 'inputs'], q='every sequence of page writes (full or differential), commits and reopenings within the stated bounds, every page content',
  why='The storage tests replay a few fixed write sequences; they do not combine diff chains, repeated writes in one transaction, reopenings and old state numbers with arbitrary data.',
  files=['src/dbzero/core/storage/BDevStorage.cpp', 'src/dbzero/core/storage/SparseIndexQuery.cpp', 'src/dbzero/core/storage/Diff_IO.cpp', 'src/dbzero/core/storage/DRAM_IOStream.cpp', 'src/dbzero/core/storage/Page_IO.cpp'],
  mech=[('sparse index and diff index choose the full page and the diffs that make up a state', 'BDevStorage::_read, SparseIndexQuery'), ('index pages are logged with every commit', 'DRAM_IOStream::flushUpdates, BDevStorage::flush')], observe=['BDevStorage::read', 'BDevStorage::findMutation']),
 dict(id='C02', title='A crash never loses or mixes committed transactions',
  statement='If the process stops at any point while a transaction is being written, reopening the file succeeds and shows the complete contents of either the last finished commit or the interrupted one, never a mixture. All transactions committed before stay readable, and new commits can be made.',
  over=['crash_points', 'histories', 'inputs'], q='every point of the write journal of a commit (each file operation, torn writes at sampled lengths) after every bounded history',
  why='No test stops the process inside a commit at every file operation; the poison-write tests reach a few points with fixed data.',
  files=['src/dbzero/core/storage/BDevStorage.cpp', 'src/dbzero/core/storage/DRAM_IOStream.cpp', 'src/dbzero/core/storage/BlockIOStream.cpp', 'src/dbzero/core/storage/ChangeLogIOStream.hpp'],
  mech=[('data and index pages are written before the change log that makes them visible', 'BDevStorage::flush'), ('superseded index chunks are not reused before the next commit', 'DRAM_IOStream::flushUpdates'), ('change log blocks carry a checksum', 'BlockIOStream')], observe=['BDevStorage open after the crash']),
 dict(id='C03', title='A reader always sees a committed state, and all of it',
  statement='A process which has a file open for reading while another one writes it sees, after opening it and after every refresh, exactly the pages of one committed state. The state is never older than the one seen before nor than the last one committed before the refresh began. Every refresh names all pages changed since the previous state, so that no stale cached page is kept, and once the writer is done the reader reaches its last state.',
  over=['schedules', 'histories', 'inputs'], q='every position of the opening and of a refresh within the sequence of the writer\'s file operations, with the following operations taking effect between any two reads of the reader',
  why='The tests run a reader and a writer side by side on real timing; the file operations hit only a few of the interleavings, and never a chosen one.',
  files=['src/dbzero/core/storage/BDevStorage.cpp', 'src/dbzero/core/storage/DRAM_IOStream.cpp', 'src/dbzero/core/storage/BlockIOStream.cpp', 'src/dbzero/core/storage/ChangeLogIOStream.hpp'],
  mech=[('the changelog names the index pages of a committed state', 'BDevStorage::completeRefresh'), ('index pages overwritten in the meantime are detected by their state number', 'DRAM_IOStream::completeApplyChanges'), ('changed data pages are taken from the data page changelog', 'DP_ChangeLog')], observe=['BDevStorage::beginRefresh / completeRefresh', 'BDevStorage opened READ_ONLY']),
 dict(id='C04', title='Page differences reproduce the page exactly',
  statement='For every old page content, new page content and set of forced ranges, computing the difference and applying it to the old content gives exactly the new content, or the difference is refused so that the full page is written. Encoding a difference never produces more bytes than announced and applying it never writes outside the page.',
  over=['inputs'], q='every pair of page contents and forced ranges up to the stated page size',
  why='The tests compare a handful of byte patterns; a wrong boundary or merged range shows up only for particular positions of equal and different bytes.',
  files=['src/dbzero/core/memory/diff_utils.cpp', 'src/dbzero/core/memory/diff_utils.hpp', 'src/dbzero/core/storage/diff_buffer.cpp'],
  mech=[('run-length list of different/equal areas', 'db0::getDiffs'), ('encoded buffer', 'o_diff_buffer')], observe=['getDiffs', 'o_diff_buffer::apply']),
 dict(id='C13', title='Transactions, atomic operations and snapshots isolate changes',
  statement='Reading a memory range of a prefix always returns the latest written bytes, wherever the range lies (inside a page, across a page boundary, over many pages) and whatever the cache has evicted or flushed in between. Cancelling an atomic operation restores exactly the contents from before it, ending it keeps exactly its changes, and a snapshot keeps showing the state it was taken of while later transactions change the data.',
  over=['histories', 'inputs', 'schedules'], q='every bounded sequence of writes to overlapping layouts, commits, reopenings, begin/end/cancel of atomic operations, snapshots and cache evictions',
  why='Unit tests drive single operations with an empty cache; the failures need an eviction, an atomic operation and a particular layout to coincide.',
  files=['src/dbzero/core/memory/PrefixImpl.cpp', 'src/dbzero/core/memory/PrefixViewImpl.cpp', 'src/dbzero/core/memory/PrefixCache.cpp', 'src/dbzero/core/memory/DP_Lock.cpp', 'src/dbzero/core/memory/WideLock.cpp', 'src/dbzero/core/memory/BoundaryLock.cpp', 'src/dbzero/core/memory/DirtyCache.cpp', 'src/dbzero/core/memory/ResourceLock.cpp'],
  mech=[('copy on write per transaction and atomic operation', 'PrefixCache::insertCopy, merge, rollback'), ('boundary and wide locks write through to the pages', 'BoundaryLock::flushBoundary, WideLock::resLockFlush')], observe=['Prefix::mapRange']),
 dict(id='C05', title='Live allocations never overlap and freed space comes back',
  statement='Memory handed out by the allocators never overlaps memory that is still allocated, has exactly the requested size, lies inside the space the allocator manages and outside its own bookkeeping area, and starts at a page boundary when alignment was asked for or it is longer than a page. Memory freed inside a transaction or atomic operation is not reused before that transaction ends, and a cancelled atomic operation leaves the allocator usable with the allocations it had before. After everything was freed the whole space can be allocated again. All of this stays true across commits and reopenings.',
  over=['histories', 'inputs'], q='every bounded sequence of allocations of the listed sizes (any size within the bound for two allocations), frees, commits, reopenings and atomic operations, every fill state of an allocation group',
  why='The tests allocate and free in a few fixed or random orders and check counts; an overlap needs a particular fill state of an allocation group, a shrunk group or a cancelled operation.',
  files=['src/dbzero/core/crdt/CRDT_Allocator.cpp', 'src/dbzero/core/memory/SlabAllocator.cpp', 'src/dbzero/core/memory/SlabManager.cpp', 'src/dbzero/core/memory/MetaAllocator.cpp', 'src/dbzero/core/memory/AlgoAllocator.cpp'],
  mech=[('allocation groups with fill maps, shrunk when space is reclaimed', 'CRDT_Allocator'), ('slabs and their remaining capacity', 'SlabManager'), ('address pools of the meta area and the slabs', 'MetaAllocator::getAddressPool, getSlabIdFunction')], observe=['Allocator::tryAlloc', 'Allocator::isAllocated', 'Allocator::getAllocSize']),
 dict(id='C06', title='Object addresses are unique for ever and survive encoding',
  statement='A unique address (the identity of a stored object) is handed out at most once, no matter how often the memory behind it is freed, its slab removed or the file reopened. A unique address keeps both of its parts, compares consistently, and its textual form decodes to the same bytes.',
  over=['histories', 'inputs'], q='every bounded sequence of unique and plain allocations, frees, commits, detaches and reopenings; every address, instance id and byte string up to 12 bytes',
  why='The tests never free the last object of a slab and allocate a unique address there again, and compare only a few encoded values.',
  files=['src/dbzero/core/memory/SlabAllocator.cpp', 'src/dbzero/core/memory/SlabManager.cpp', 'src/dbzero/core/memory/Address.hpp', 'src/dbzero/core/collections/vector/LimitedVector.hpp', 'src/dbzero/core/utils/base32.cpp'],
  mech=[('per-page instance id counters', 'SlabAllocator::tryMakeAddressUnique, LimitedVector::atomicInc'), ('14-bit instance id next to a 50-bit offset', 'UniqueAddress'), ('base-32 text', 'base32_encode, base32_decode')], observe=['Allocator::allocUnique', 'UniqueAddress', 'base32_decode']),
 dict(id='C07', title='Ordered trees hold exactly what was inserted and find the right neighbours',
  statement='After any sequence of insertions and removals an ordered tree or map holds exactly the inserted and not yet removed items, iterates them in order, and its exact, nearest-below and nearest-above searches return what a search over a plain sorted list of the items returns. This is independent of node splits, node compression, lazy sorting, duplicates, and of commits and reopenings in between; destroying a map frees every block it allocated.',
  over=['histories', 'inputs'], q='every bounded sequence of insertions, removals, lookups, commits and reopenings over symbolic keys, starting from trees of up to 20 items',
  why='The tests insert fixed or random keys and look up a few of them; a wrong bound needs a key that falls between two nodes, outside all of them, or into a node that has just been split, merged or sorted.',
  files=['src/dbzero/core/collections/SGB_Tree/SGB_Tree.hpp', 'src/dbzero/core/collections/SGB_Tree/SGB_LookupTree.hpp', 'src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp', 'src/dbzero/core/collections/SGB_Tree/sgb_tree_node.hpp', 'src/dbzero/core/collections/sgtree/v_sgtree.hpp', 'src/dbzero/core/collections/map/v_map.hpp', 'src/dbzero/core/utils/dary_heap.hpp', 'src/dbzero/core/utils/bisect.hpp'],
  mech=[('nodes are d-ary heaps, split when full and merged when empty', 'SGB_Tree::emplace, erase; dheap'), ('lookup nodes get sorted after enough lookups and reversed on update', 'SGB_LookupTree'), ('items are stored relative to the node header', 'SGB_CompressedLookupTree')], observe=['lower_equal_bound', 'upper_equal_bound', 'find_equal', 'iterators']),
 dict(id='C08', title='Indexes that change their storage format keep exactly the indexed values',
  statement='After any sequence of single and bulk insertions and erasures an index block list (and the index which switches between empty, single value, inline vectors, sorted vector and block list as it grows and shrinks) holds exactly the inserted and not yet erased values: iteration in both directions yields each of them once in order, find answers membership, and joining forwards or backwards to a key moves to the nearest value on that side. Bulk operations report exactly the values they added or removed. Storage of replaced formats is freed, and destroying the index frees everything.',
  over=['histories', 'inputs'], q='every bounded sequence of bulk/single insert and erase requests with symbolic values over indexes of 0-30 values, every join key and direction',
  why='The tests grow an index through the formats with fixed values and check the size; a lost or doubled value needs a request that straddles a block boundary or a format change, in a particular order.',
  files=['src/dbzero/core/collections/b_index/v_bindex.hpp', 'src/dbzero/core/collections/b_index/mb_index.hpp', 'src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp', 'src/dbzero/core/collections/vector/v_sorted_vector.hpp', 'src/dbzero/core/collections/sgtree/v_sgtree.hpp'],
  mech=[('blocks of sorted data under a tree of first items', 'v_bindex'), ('format chosen by the number of values', 'MorphingBIndex'), ('joining across blocks', 'v_bindex_joinable_const_iterator')], observe=['bulkInsert', 'bulkErase', 'beginJoin', 'joinBound']),
 dict(id='C09', title='Arrays, matrices and bit sets return the element last stored at each position',
  statement='Growable and fixed vectors, the limited matrices and their cache, sparse bit matrices, fixed bit sets and run-length sequences behave like their plain in-memory counterparts: every position reads the value last written to it, sizes and iteration agree with the operations made, elements outside of an operation are untouched, and this holds in every storage layout the container switches between. Destroying a container frees all its blocks.',
  over=['histories', 'inputs'], q='every bounded sequence of append, insert, erase, resize, set, clear and lookup with symbolic positions, counts and values over containers spanning several blocks',
  why='The tests push fixed sequences and read them back; a wrong element needs an operation that crosses a block or level boundary with particular counts.',
  files=['src/dbzero/core/collections/vector/v_bvector.hpp', 'src/dbzero/core/collections/vector/VLimitedMatrix.hpp', 'src/dbzero/core/collections/vector/LimitedMatrixCache.hpp', 'src/dbzero/core/collections/rle/RLE_Sequence.hpp', 'src/dbzero/core/collections/bitset/FixedBitset.hpp'],
  mech=[('blocks under pointer blocks, doubling first block', 'v_bvector'), ('dense and sparse rows', 'VLimitedMatrix'), ('run-length encoding', 'RLE_SequenceBuilder')], observe=['operator[]', 'iterators', 'size']),
 dict(id='C10', title='Queries return exactly the objects which satisfy them',
  statement='A query built from tags and other key sets by and, or, exclusive-or, and-not, products and memory spans returns exactly the objects which satisfy it, each once and in key order in both directions, whatever storage the key sets use. Moving a query to a key, stepping, peeking ahead, starting over and building it anew from the lazy form give the same objects.',
  over=['inputs'], q='every query tree of depth up to 3 over leaves of 0-3 symbolic keys in memory, fixed-key and stored indexes; every join key and direction',
  why='The tests run a few fixed queries over fixed tags; errors need coinciding, missing or exhausted keys in particular sub-queries.',
  files=['src/dbzero/core/collections/full_text/FT_ANDIterator.cpp', 'src/dbzero/core/collections/full_text/FT_ORXIterator.cpp', 'src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp', 'src/dbzero/core/collections/full_text/FT_IndexIterator.hpp', 'src/dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp', 'src/dbzero/core/collections/full_text/FT_SpanIterator.cpp', 'src/dbzero/core/collections/full_text/TagProduct.cpp', 'src/dbzero/core/collections/full_text/IteratorGroup.cpp'],
  mech=[('leapfrog conjunction', 'JoinANDIterator'), ('heap of sub-iterators for disjunction', 'JoinORXIterator'), ('subtraction', 'FT_ANDNOTIterator'), ('spans of addresses', 'FT_SpanIterator')], observe=['FT_Iterator::next', 'join', 'peek', 'beginTyped']),
 dict(id='C11', title='Range indexes select and sort exactly the indexed objects',
  statement='After any sequence of insertions and removals of (key, object) pairs, including objects without a key, a range index holds exactly the inserted and not yet removed pairs and counts them correctly; selecting a range, with either bound open, inclusive or exclusive and nulls first or last, yields exactly the objects whose keys lie in it; sorting by the index in either direction, or by two indexes, or within the results of a query, yields each object in the right order. This does not depend on how the index divided its keys into blocks, nor on whether pending changes were collected before they were flushed.',
  over=['histories', 'inputs'], q='every bounded sequence of insert/erase requests with symbolic keys and objects over indexes of up to 9 items in blocks of 3-4; every range, bound kind, order and null position',
  why='The tests index distinct keys into one or two blocks; wrong results need equal keys across a block split, bounds that coincide with a block border, or removals which touch several blocks.',
  files=['src/dbzero/core/collections/range_tree/RangeTree.hpp', 'src/dbzero/core/collections/range_tree/RT_FTIterator.hpp', 'src/dbzero/core/collections/range_tree/RT_SortIterator.hpp', 'src/dbzero/core/collections/range_tree/RT_Range.hpp', 'src/dbzero/core/collections/range_tree/RangeIteratorFactory.hpp'],
  mech=[('ranges of bounded blocks, split when full', 'RangeTree::bulkInsert, bulkErase'), ('range selection over blocks with border checks', 'RT_FTIterator'), ('sorting block by block, inner sort for equal keys', 'RT_SortIterator')], observe=['RangeTree', 'RT_FTIterator', 'RT_SortIterator']),
 dict(id='C12', title='Stored values and members are read back exactly as written',
  statement='Every value written with the storage encodings (variable-length integers and pairs, packed and micro arrays, strings, lists, reference counters) is read back unchanged, occupies exactly the number of bytes its size functions report, and is never written past the memory reserved for it; integers which do not fit are rejected. The members of an object collected during construction, its position table, its index table, its key-value index and its low-width members return for every member the value last stored, and report a member as missing exactly if it was never stored or was removed.',
  over=['inputs', 'histories'], q='every value of the encodable types and every string up to 3-5 bytes; every bounded sequence of set/overwrite/remove of members with symbolic member ids, types and values, in tables of up to 16 members',
  why='The tests round-trip a few values; a wrong byte needs a value at an encoding-length boundary, a member overwritten by another type, or a table which changes its layout with a particular set of members.',
  files=['src/dbzero/core/serialization/packed_int.hpp', 'src/dbzero/core/serialization/packed_int_pair.hpp', 'src/dbzero/core/serialization/packed_array.hpp', 'src/dbzero/core/serialization/micro_array.hpp', 'src/dbzero/core/serialization/ref_counter.hpp', 'src/dbzero/core/serialization/string.hpp', 'src/dbzero/core/serialization/list.hpp', 'src/dbzero/object_model/object/lofi_store.hpp', 'src/dbzero/object_model/object/ValueTable.cpp', 'src/dbzero/object_model/object/XValuesVector.cpp', 'src/dbzero/object_model/object/KV_Index.cpp', 'src/dbzero/object_model/object/ObjectInitializer.cpp', 'src/dbzero/object_model/value/XValue.cpp'],
  mech=[('variable-length integers', 'o_packed_int, o_packed_int_pair'), ('position and index tables', 'PosVT, IndexVT'), ('values collected during construction', 'XValuesVector, ObjectInitializer'), ('morphing key-value index', 'KV_Index')], observe=['o_packed_int::value', 'PosVT::find', 'IndexVT::find', 'XValuesVector::tryGetAt', 'KV_Index::findOne']),
 dict(id='C14', title='Streams return their records complete, unchanged and in order',
  statement='Every record appended to a block stream and flushed is returned by later reads, complete, unchanged and in the order of appending: after reopening the file, to a reader process which refreshes while the writer goes on (at any point between the writer\'s block writes), after jumping to a saved position, and after a crash between any two writes, from which the stream recovers with a prefix of its records and takes further ones. Two streams of one file never share a block. With checksums, a corrupted word never makes a read return an altered record. Change logs return their exact contents and the meta log finds the last checkpoint at or below a state.',
  over=['histories', 'fault_sequences', 'schedules', 'inputs'], q='every bounded sequence of appends, flushes, refreshes and reopenings of two streams with records that end at, cross and span block borders; every crash point and every reader position between writes; every value of any one changed word',
  why='The tests append records of random sizes to one stream and read them after a clean close; failures need a record that crosses a block border at a crash or at the moment a reader looks.',
  files=['src/dbzero/core/storage/BlockIOStream.cpp', 'src/dbzero/core/storage/ChangeLogIOStream.cpp', 'src/dbzero/core/storage/ChangeLog.cpp', 'src/dbzero/core/storage/MetaIOStream.cpp', 'src/dbzero/core/storage/CFile.cpp'],
  mech=[('blocks linked by their headers, chunks across blocks', 'BlockIOStream'), ('block checksums', 'BlockIOStream::readBlock'), ('following a growing stream', 'BlockIOStream::refresh'), ('checkpoints of stream positions', 'MetaIOStream')], observe=['BlockIOStream::readChunk', 'ChangeLogIOStream::readChangeLogChunk', 'MetaIOStream::lowerBound']),
 dict(id='C15', title='Tags: an object is listed under exactly the tags it carries',
  statement='After any sequence of adding and removing tags (pending changes collected in a batch, flushed, dropped or followed by reopening) the list of a tag holds exactly the objects whose last flushed change for that tag was an addition, each once and in order, and never an object of another tag. The last change made before a flush decides. Every flush reports exactly the objects added and removed, and announces the list of a tag exactly once when it comes into existence and once when it goes. This holds for short and two-part tags, lists that grow through all storage forms, objects whose identity is assigned only before the flush, and storage at addresses equal to an object identity.',
  over=['histories', 'inputs'], q='every bounded sequence of add, remove, bulk change, flush, drop and reopen over a few tags and objects, on top of lists of 0-36 objects',
  why='The tests tag a few objects once, flush, and query; a lost or invented tag needs opposite changes within one batch, a list at a size where its storage form changes, or an address that equals an object identity.',
  files=['src/dbzero/core/collections/full_text/FT_BaseIndex.hpp', 'src/dbzero/core/collections/full_text/InvertedIndex.hpp', 'src/dbzero/core/memory/VObjectCache.hpp', 'src/dbzero/core/collections/b_index/mb_index.hpp'],
  mech=[('pending changes per tag, flushed into inverted lists', 'FT_BaseIndex::BatchOperation::flush'), ('lists referenced from the index by address and type', 'InvertedIndex'), ('recently used lists', 'VObjectCache')], observe=['FT_BaseIndex::makeIterator', 'BatchOperation::flush callbacks']),
 dict(id='C16', title='Names are stored once and live as long as they are referenced',
  statement='A name added to the string pool gets one id which stays the same while the name is referenced, reads back as the same text (also after reopening), and is never shared with another name. Adding reports correctly whether a reference was taken, looking up finds exactly the stored names, and the name and its memory go exactly when its last reference is dropped.',
  over=['histories', 'inputs'], q='every bounded sequence of add, lookup, reference and unreference with symbolic text, on pools of 0-5 names',
  why='The tests add a few different names and read them back; a lost or shared name needs a prefix of another name or a particular balance of references.',
  files=['src/dbzero/core/collections/pools/StringPools.cpp', 'src/dbzero/core/collections/pools/StringPools.hpp', 'src/dbzero/core/collections/map/v_map.hpp'],
  mech=[('map from text to a reference-counted entry', 'RC_LimitedStringPool')], observe=['RC_LimitedStringPool::get', 'fetch', 'unRef']),
 dict(id='N01', title='Python objects keep their members while reachable and are dropped afterwards',
  statement='A memo object reachable from a tag, a collection or a Python variable keeps its members; once nothing refers to it any more it and everything only it refers to is removed.',
  over=['histories'], q='every history of creating, linking, unlinking and dropping objects', why='Tests run a few histories.', files=['src/dbzero/object_model/object/Object.cpp', 'src/dbzero/bindings/python/Memo.cpp', 'src/dbzero/workspace/GC0.cpp'], mech=[('reference counts and deferred removal', 'GC0, ObjectBase')],
  na='The code is inseparable from the CPython C API (PyObject reference counts, type objects, the interpreter\'s dictionaries); libpython is not available as bitcode and a stand-in for it would be a model of the interpreter and not the real code.'),
 dict(id='N02', title='A query stored as bytes and loaded again gives the same results',
  statement='Serializing a query and deserializing it yields a query with the same signature and results.', over=['inputs'], q='every query', why='Tests store a few queries.', files=['src/dbzero/object_model/tags/ObjectIterator.cpp', 'src/dbzero/core/collections/full_text/FT_Serialization.hpp'], mech=[('byte form of iterators', 'FT_Serialization')],
  na='Loading a query goes through Snapshot/Fixture/Workspace (threads, Python type lookups); no entry point below them takes the serialized form, so it cannot be encoded without replacing most of the code it depends on.'),
 dict(id='N03', title='Concurrent threads never observe a half-made change',
  statement='Operations of several threads on one workspace behave as if executed one after the other; auto-commit and cache eviction in background threads never corrupt an operation in progress.', over=['schedules'], q='every interleaving of threads', why='Tests run a few timings.', files=['src/dbzero/core/threading/ProgressiveMutex.cpp', 'src/dbzero/core/threading/ROWO_Mutex.hpp', 'src/dbzero/workspace/Workspace.cpp', 'src/dbzero/workspace/FixtureThreads.cpp'], mech=[('locks on flags', 'ROWO_Mutex, ProgressiveMutex')],
  na='The engine executes one thread; interleaving C++ atomics, std::mutex and condition variables at IR level over the template-heavy lock code exceeds its reach (CBMC\'s C++ front end does not parse it). Interleavings of two processes through the file are covered in C03 and C14.'),
 dict(id='N04', title='Prefix files are opened, copied, dropped and listed consistently',
  statement='Opening, closing, dropping, copying and listing prefixes leaves exactly the named files, with one writer at a time.', over=['histories', 'schedules'], q='every sequence of workspace operations', why='Tests run a few sequences.', files=['src/dbzero/workspace/Workspace.cpp', 'src/dbzero/workspace/PrefixCatalog.cpp', 'src/dbzero/core/storage/copy_prefix.cpp'], mech=[('lock files and prefix names', 'PrefixCatalog, LockFlags')],
  na='Consists of file system calls (std::filesystem, flock) and Python configuration objects; deciding it would mean checking a hand-written model of the file system instead of the code.'),
]
