"""Which harness entries decide which property, with their bounds."""
COMMON_ASSUMPTIONS = [
    'clang -O1 LLVM IR of the sources; memory allocation never fails; single thread unless the entry says otherwise',
    'the disk is an in-memory stand-in for stdio (journal of every write/fsync); logging and string formatting have empty bodies']
def J(h, e, t=40, params=None, **kw): return dict(h=h, e=e, t=t, params=params or {}, **kw)
PROPS = {
 'C01': dict(bounds='3 logical pages of 128 bytes, up to 4 symbolic operations (full/diff write, commit, reopen), diff chains up to 2, 2 symbolic bytes per written page',
    jobs=[J('h_store', 'store_history', 40, {'steps': 4}), J('h_store', 'store_history', 40, {'steps': 3, 'pre': 3, 'maxlen': 4}), J('h_store', 'store_history', 60, {'steps': 3, 'step': 1400}), J('h_store', 'store_history', 60, {'steps': 3, 'step': 1400, 'pre': 5, 'maxlen': 3})]),
 'C02': dict(bounds='one transaction of 1-2 page writes after 2-24 committed ones on small blocks (so that every stream passes block borders; thorough: up to 60), crash after every write of the journal, torn writes at 3 lengths',
    jobs=[J('h_store', 'store_crash', 60, {'maxw': 1, 'pre': 2}), J('h_store', 'store_torn_block', 60, {'maxw': 1, 'pre': 2}), J('h_store', 'store_powerloss', 60, {'maxw': 1, 'pre': 2}), J('h_store', 'store_crash_index', 100), J('h_store', 'store_crash_index', 100, {'pages': 100, 'txns': 2}), J('h_store', 'store_crash_index', 100, {'pages': 150, 'txns': 2}),
          J('h_store', 'store_crash', 150, {'maxw': 1, 'plain': 2, 'pre': 4, 'more': 9, 'meta_step': 64}, thorough=dict(params={'more': 40}, t=3000)), J('h_store', 'store_crash', 150, {'maxw': 1, 'plain': 2, 'pre': 14, 'more': 11}, thorough=dict(params={'more': 45}, t=3000)),
          J('h_store', 'store_crash', 100, {'maxw': 1, 'plain': 2, 'pre': 4, 'more': 9, 'step': 1400}, thorough=dict(params={'more': 50}, t=3000)), J('h_store', 'store_powerloss', 100, {'maxw': 1, 'plain': 2, 'pre': 9, 'more': 4}, thorough=dict(params={'pre': 3, 'more': 40}, t=3000))]),
 'C03': dict(bounds='60 pages (several index pages per transaction) over 5-7 transactions, a reader refreshing between any two of them with up to all the rest committed before any one of its reads; 1-3 transactions of one or two page writes (3 shapes) by the writer after 0-10 committed ones (thorough: up to 23); a reader opened before or after a prefix of the writes, which refreshes while the rest (or the next 0-3 of the writes) reaches the file in front of one of its first 12-16 reads, each time possibly with one partial write; concrete page contents',
    jobs=[J('h_store', 'store_refresh', 120, {'pre': p, 'txns': t, 'shapes': s, 'jump': j, 'reads': r, **({'meta_step': 64} if p == 5 else {})}, thorough=dict(params={'shapes': 3, 'jump': 3, 'reads': 20}, t=3000)) for p, t, s, j, r in ((2, 1, 3, 3, 12), (0, 2, 2, 2, 16), (2, 3, 1, 1, 16), (3, 2, 1, 2, 16), (1, 2, 2, 1, 14), (5, 2, 1, 1, 12), (10, 2, 1, 1, 12))] +
         [J('h_store', 'store_refresh_index', 80, {}, thorough=dict(params={'pages': 150, 'reads': 60, 'firsts': 4, 'turns': 3, 'groups': 5}, t=3000)), J('h_store', 'store_refresh_index', 80, {'meta_step': 64, 'groups': 2, 'txns': 7, 'firsts': 1}, thorough=dict(params={'firsts': 5, 'part': 5}, t=3000)), J('h_store', 'store_refresh_index', 80, {'pages': 12, 'txns': 6, 'firsts': 4, 'groups': 2, 'part': 4}, thorough=dict(params={'txns': 9, 'part': 8}, t=3000)), J('h_store', 'store_refresh', 120, {'pre': 23, 'txns': 2, 'shapes': 1, 'jump': 0, 'reads': 12}, thorough=dict(params={'jump': 2, 'reads': 20}, t=3000)), J('h_store', 'store_refresh_torn', 60, {'pre': 2, 'txns': 2, 'shapes': 1, 'jump': 1, 'strict': 0})]),
 'C13': dict(bounds='5 objects (in-page, page-crossing, multi-page with and without a residual part) on pages of 128 bytes, up to 4 operations (write, commit, reopen, begin/end/cancel atomic, snapshot, flush/evict) after one committed transaction, symbolic data byte in part of the writes',
    jobs=[J('h_prefix', 'prefix_atomic', 200, {'pre': 1, 'steps': 5, 'styles': 1, 'cold': 1, 'reads': 1, 'hold': 1, 'ops': 2211}, thorough=dict(params={'steps': 6}, t=1500)),
          J('h_prefix', 'prefix_atomic', 200, {'pre': 1, 'steps': 6, 'styles': 1, 'cold': 1, 'reads': 1, 'hold': 0, 'ops': 8376}, thorough=dict(params={'steps': 7}, t=3000))] + [J('h_prefix', e, 120, {'pre': 1, 'steps': 3, 'styles': 2}, thorough=dict(params={'steps': 4}, t=3000)) for e in ('prefix_txn', 'prefix_atomic', 'prefix_snapshot')] +
         [J('h_prefix', e, 120, {'pre': 1, 'steps': 3, 'styles': 1, 'aligned': 1}, thorough=dict(params={'steps': 4}, t=3000)) for e in ('prefix_txn', 'prefix_atomic', 'prefix_snapshot')] +
         [J('h_prefix', e, 120, {'pre': 1, 'steps': 3, 'styles': 1, 'hold': 1, 'cold': 1, 'reads': 1, 'aligned': a}, thorough=dict(params={'steps': 4}, t=3000)) for e in ('prefix_txn', 'prefix_atomic', 'prefix_snapshot') for a in (0, 1)] +
         [J('h_prefix', 'prefix_atomic', 120, {'pre': 1, 'steps': 4, 'styles': 1}, thorough=dict(params={'steps': 5}, t=3000))]),
 'C04': dict(bounds='pages of up to 32 symbolic bytes', jobs=[J('h_diff', e) for e in ('diff_pair_roundtrip', 'diff_zero_roundtrip', 'diff_forced_ranges', 'diff_range_view')]),
 'C05': dict(bounds='up to 3 allocations of any size up to 2 pages (symbolic) or 4 from a list, on a page size of 32; slabs of 64 pages with up to 300 blocks allocated before and up to 3 further operations from 12 sizes; meta allocator with 1-2 realms and 1-3 slabs, up to 5 operations including begin/end/cancel of atomic operations; one step from any fill state of an allocation group of 56/24/8/1 units',
    jobs=[J('h_alloc', 'alloc_group', 60), J('h_alloc', 'alloc_hint', 40), J('h_alloc', 'alloc_pools', 40), J('h_alloc', 'alloc_slab_ids', 40), J('h_alloc', 'alloc_crdt', 60, {'steps': 2}, thorough=dict(params={'steps': 3}, t=3000)),
          J('h_alloc', 'alloc_crdt', 120, {'steps': 4, 'conc': 1, 'max': 2, 'total': 300, 'pg': 1}, thorough=dict(params={'steps': 5}, t=3000)),
          J('h_alloc', 'alloc_slab', 150, {'steps': 3, 'ns': 8}, thorough=dict(params={'steps': 4, 'ns': 12}, t=3000)), J('h_alloc', 'alloc_slab', 80, {'steps': 2, 'pre': 300, 'psz': 4000}, thorough=dict(params={'steps': 3}, t=3000)),
          J('h_alloc', 'alloc_slab', 150, {'steps': 3, 'pre': 300, 'psz': 4000, 'keep': 5, 'ns': 5}, thorough=dict(params={'steps': 4}, t=3000)),
          J('h_alloc', 'alloc_meta', 150, {'steps': 3, 'deferred': 1, 'ops': 0x9f}, thorough=dict(params={'steps': 4}, t=3000)),
          J('h_alloc', 'alloc_meta', 150, {'steps': 5, 'deferred': 1, 'atomic': 1, 'realms': 1, 'pre': 1, 'ops': 1 + 4 + 32 + 256 + 512, 'slab': 128, 'big': 60}, thorough=dict(params={'steps': 6}, t=3000)),
          J('h_alloc', 'alloc_meta', 150, {'steps': 5, 'deferred': 1, 'atomic': 1, 'realms': 1, 'pre': 1, 'ops': 1 + 16 + 32 + 256 + 512}, thorough=dict(params={'steps': 6}, t=3000))]),
 'C06': dict(bounds='up to 5 operations on one slab, up to 4 on a meta allocator, counters at 5 positions of a 16-page array with symbolic values; every offset below 2^50 and instance id below 2^14; byte strings of 1-12 symbolic bytes',
    jobs=[J('h_alloc', 'alloc_unique_slab', 100, {'steps': 5}, thorough=dict(params={'steps': 6}, t=3000)), J('h_alloc', 'alloc_meta', 150, {'steps': 4, 'realms': 1, 'ops': 1 + 2 + 16 + 32 + 64 + 128}, thorough=dict(params={'steps': 5}, t=3000)),
          J('h_alloc', 'alloc_counters', 120, {}, thorough=dict(params={'steps': 4}, t=3000)), J('h_alloc', 'uid_parts'), J('h_alloc', 'uid_base32')]),
 'C07': dict(bounds='trees with up to 20 concrete items (ascending, descending, alternating order) and up to 4 further operations with symbolic keys; node capacities of 4-10 items; string keys of up to 2 arbitrary bytes; allocator and disk replaced by simple stand-ins',
    jobs=[J('h_tree', 'tree_sgb', 100, {'steps': 3, 'pre': 0}, thorough=dict(params={'steps': 4}, t=3000)), J('h_tree', 'tree_sgb', 100, {'steps': 1, 'pre': 14}, thorough=dict(params={'steps': 2}, t=3000)), J('h_tree', 'tree_sgb', 100, {'steps': 2, 'pre': 6, 'gap': 2, 'kmax': 15}, thorough=dict(params={'steps': 3}, t=3000)), J('h_tree', 'tree_sgb', 100, {'steps': 4, 'dup': 1, 'kmax': 3}, thorough=dict(params={'steps': 5}, t=3000)),
          J('h_tree', 'tree_lookup', 100, {'steps': 3, 'pre': 0}, thorough=dict(params={'steps': 4}, t=3000)), J('h_tree', 'tree_lookup', 100, {'steps': 1, 'pre': 8}, thorough=dict(params={'steps': 2}, t=3000)), J('h_tree', 'tree_lookup', 100, {'steps': 1, 'pre': 9, 'look': 1, 'thr': 2}, thorough=dict(params={'steps': 2}, t=3000)),
          J('h_tree', 'tree_compressed', 100, {'steps': 3}, thorough=dict(params={'steps': 4}, t=3000)), J('h_tree', 'tree_compressed', 100, {'steps': 2, 'pre': 5, 'gap': 5, 'kmax': 20}, thorough=dict(params={'steps': 2}, t=3000)), J('h_tree', 'tree_compressed', 100, {'steps': 1, 'pre': 20, 'gap': 3, 'kmax': 70}, thorough=dict(params={'steps': 2}, t=3000)),
          J('h_heap', 'heap_step', 60, {}, thorough=dict(params={'most': 12}, t=3000)), J('h_tree', 'tree_map', 100, {'steps': 3}, thorough=dict(params={'steps': 5}, t=3000)), J('h_tree', 'tree_map', 100, {'steps': 1, 'pre': 9}, thorough=dict(params={'steps': 2}, t=3000)), J('h_tree', 'tree_map', 100, {'steps': 3, 'dup': 1}, thorough=dict(params={'steps': 5}, t=3000)), J('h_tree', 'tree_map_string', 100, {'steps': 3, 'len': 2}, thorough=dict(params={'len': 3}, t=3000))]),
 'C08': dict(bounds='indexes of up to 30 values in blocks of 4-10 values, up to 2 further requests of up to 2 values (bulk: up to 3), values up to the key bound, then up to 2 joins to any key; morphing limit 6; allocator and disk replaced by simple stand-ins',
    jobs=[J('h_index', 'index_bindex', 100, {'steps': 2, 'qmask': 1}, thorough=dict(params={'steps': 3}, t=3000)), J('h_index', 'index_bindex', 100, {'steps': 1, 'pre': 20, 'qmask': 1}, thorough=dict(params={'qmask': 3}, t=3000)), J('h_index', 'index_bindex', 100, {'steps': 0, 'pre': 20, 'joins': 2}, thorough=dict(params={'joins': 3}, t=3000)), J('h_index', 'index_bindex', 100, {'steps': 2, 'pre': 8, 'qmask': 1, 'ops': 49}, thorough=dict(params={'ops': 63}, t=3000)),
          J('h_index', 'index_bindex', 100, {'steps': 2, 'dup': 1, 'kmax': 3, 'qmask': 3}, thorough=dict(params={'steps': 3}, t=3000)), J('h_index', 'index_bindex', 100, {'steps': 1, 'dup': 1, 'pre': 8, 'ops': 4, 'joins': 1}, thorough=dict(params={'joins': 2}, t=3000)),
          J('h_index', 'index_morphing', 100, {'steps': 2}, thorough=dict(params={'steps': 3}, t=3000)), J('h_index', 'index_morphing', 100, {'steps': 1, 'pre': 4, 'many': 3, 'qmask': 1}, thorough=dict(params={'steps': 2}, t=3000)), J('h_index', 'index_morphing', 100, {'steps': 2, 'pre': 6, 'qmask': 1, 'ops': 13}, thorough=dict(params={'ops': 63}, t=3000)), J('h_index', 'index_morphing', 100, {'steps': 1, 'pre': 14, 'qmask': 1}, thorough=dict(params={'steps': 2}, t=3000)), J('h_index', 'index_morphing', 100, {'steps': 0, 'pre': 5, 'joins': 2}), J('h_index', 'index_morphing', 100, {'steps': 0, 'pre': 14, 'joins': 2}), J('h_index', 'index_morphing', 100, {'steps': 0, 'pre': 30, 'joins': 2})]),
 'C09': dict(bounds='vectors of up to ~40 elements in blocks of 4-8, up to 2 further operations with any position and count inside; matrices, bit sets (64 and 192 bits) and run-length sequences of up to 6 symbolic elements',
    jobs=[J('h_array', e, 100, p, thorough=dict(params={'steps': 2}, t=3000)) for e in ('array_bvector', 'array_bytes') for p in ({'steps': 2, 'pre': 0}, {'steps': 1, 'pre': 2}, {'steps': 1, 'pre': 3}, {'steps': 1, 'pre': 3, 'fixed': 1})] +
         [J('h_array', 'array_vmatrix', 100, {'steps': 2}, thorough=dict(params={'steps': 3}, t=3000)), J('h_array', 'array_vmatrix', 100, {'steps': 2, 'cache': 1}, thorough=dict(params={'steps': 3}, t=3000)), J('h_array', 'array_matrix', 100, {'steps': 3}), J('h_array', 'array_bits', 100, {'steps': 3}, thorough=dict(params={'steps': 4}, t=3000)), J('h_array', 'array_bitset', 100, {'steps': 1}, thorough=dict(params={'steps': 2}, t=3000)), J('h_array', 'array_rle', 100, {'max': 5}, thorough=dict(params={'max': 7}, t=3000))]),
 'C10': dict(bounds='query trees of 1-3 operators over leaves of up to 3 keys, keys up to 7; spans over 3-4 addresses; products of 2 sets; up to 3 joins',
    jobs=[J('h_ft', 'ft_pairs', 100, {'most': 3, 'qmask': 29}), J('h_ft', 'ft_pairs', 100, {'most': 3, 'qmask': 2, 'joins': 1}, thorough=dict(params={'joins': 2}, t=3000)), J('h_ft', 'ft_pairs', 100, {'most': 2, 'kinds': 1}), J('h_ft', 'ft_pairs', 100, {'most': 2, 'kinds': 2}), J('h_ft', 'ft_pairs', 100, {'most': 1, 'kinds': 8}, thorough=dict(params={'most': 2}, t=3000)),
          J('h_ft', 'ft_triples', 100, {'most': 2, 'qmask': 1}, thorough=dict(params={'most': 3}, t=3000)), J('h_ft', 'ft_triples', 100, {'most': 2, 'qmask': 2, 'joins': 1}, thorough=dict(params={'joins': 2}, t=3000)), J('h_ft', 'ft_triples', 100, {'most': 2, 'qmask': 16}, thorough=dict(params={'most': 3}, t=3000)),
          J('h_ft', 'ft_nested', 100, {'most': 2, 'qmask': 1}, thorough=dict(params={'most': 3}, t=3000)), J('h_ft', 'ft_nested', 100, {'most': 2, 'qmask': 8}, thorough=dict(params={'most': 3}, t=3000)), J('h_ft', 'ft_nested', 100, {'most': 1, 'joins': 3}, thorough=dict(params={'most': 2}, t=3000)), J('h_ft', 'ft_nested', 100, {'most': 1, 'kinds': 2}, thorough=dict(params={'most': 2}, t=3000)), J('h_ft', 'ft_nested', 300, {'most': 2, 'qmask': 2, 'joins': 1}, thorough=dict(params={'joins': 2}, t=3000)),
          J('h_ft', 'ft_span', 150, {'most': 3}, thorough=dict(params={'most': 4}, t=3000)), J('h_ft', 'ft_quads', 150, {'most': 2, 'qmask': 1}), J('h_ft', 'ft_quads', 100, {'most': 1}, thorough=dict(params={'most': 2}, t=3000)), J('h_ft', 'ft_product', 60, {'most': 1}, thorough=dict(params={'most': 2, 'kmax': 5}, t=3000))]),
 'C11': dict(bounds='range trees of up to 9 concrete items plus up to 2 requests (insert one or two, erase one or two, insert/erase null-key items, reopen) with symbolic keys and values, blocks of 3-4 items, ranges with any bounds, open or closed; sorting by two indexes of 2 items each',
    jobs=[J('h_range', 'range_tree', 100, {'steps': 1, 'qmask': 15, 'kmax': 12}, thorough=dict(params={'steps': 2, 'qmask': 1}, t=3000)), J('h_range', 'range_tree', 100, {'steps': 1, 'pre': 5, 'qmask': 1}, thorough=dict(params={'steps': 2, 'kmax': 12}, t=3000)), J('h_range', 'range_tree', 100, {'steps': 0, 'pre': 9, 'qmask': 15}, thorough=dict(params={'pre': 14}, t=3000)),
          J('h_range', 'range_tree', 150, {'steps': 2, 'qmask': 1, 'kmax': 3, 'vmax': 3}, thorough=dict(params={'steps': 3}, t=3000)), J('h_range', 'range_tree', 100, {'steps': 2, 'pre': 5, 'qmask': 1, 'kmax': 8, 'vmax': 3, 'ops': 5}, thorough=dict(params={'ops': 127}, t=3000)), J('h_range', 'range_tree', 150, {'steps': 1, 'pre': 9, 'style': 1, 'qmask': 1}, thorough=dict(params={'qmask': 3}, t=3000)),
          J('h_range', 'range_tree', 100, {'steps': 1, 'pre': 5, 'qmask': 6, 'kmax': 8, 'vmax': 6, 'ops': 5}, thorough=dict(params={'ops': 127}, t=3000)), J('h_range', 'range_sort2', 200, {'n': 3}, thorough=dict(params={'n': 4}, t=3000)), J('h_range', 'range_builder', 150, {}, thorough=dict(params={'steps': 4}, t=3000))]),
 'C12': dict(bounds='every 8-64-bit integer of the encodings, pairs of them, packed arrays of up to 5 bytes of 1-4 items, counters over up to 3 operations, strings of up to 3 bytes and lists of up to 3 items; low-width stores of 4 members over 3 operations; up to 5 set/remove/look up operations on construction values (3-4 member ids of 2 slots), position tables of up to 7 and index tables of up to 6 members, key-value indexes of up to 14 members plus 2-4 operations',
    jobs=[J('h_serial', e, 60) for e in ('serial_packed_int', 'serial_packed_pair', 'serial_packed_array', 'serial_micro_array', 'serial_list')] +
         [J('h_serial', 'serial_string', 60, {'len': 3}, thorough=dict(params={'len': 5}, t=2000)), J('h_serial', 'serial_ref_counter', 60, {'steps': 3}, thorough=dict(params={'steps': 5}, t=2000)), J('h_serial', 'serial_lofi', 100, {'steps': 3}, thorough=dict(params={'steps': 4}, t=3000)),
          J('h_model', 'model_values', 100, {'steps': 5}, thorough=dict(params={'steps': 6}, t=3000)), J('h_model', 'model_values', 100, {'steps': 3, 'threshold': 2, 'indexes': 4}, thorough=dict(params={'steps': 5}, t=3000)),
          J('h_model', 'model_pos_table', 60), J('h_model', 'model_index_table', 100, {'most': 6}, thorough=dict(params={'most': 8}, t=2000)), J('h_model', 'model_initializer', 60, {}, thorough=dict(params={'most': 4, 'steps': 3}, t=2000)),
          J('h_model', 'model_kv_index', 100, {'steps': 4, 'imax': 5}, thorough=dict(params={'steps': 5}, t=3000))] + [J('h_model', 'model_kv_index', 100, {'steps': 2, 'pre': n}, thorough=dict(params={'steps': 3}, t=3000)) for n in (2, 4, 8, 14)]),
 'C14': dict(bounds='blocks of 64 bytes (128 for change logs), two streams of one file, up to 4 operations after up to 7 records, records of 1-130 bytes from a list of sizes around the block size with a symbolic byte each; up to 3 logs of up to 3 symbolic values; one corrupted 8-byte word of any value',
    jobs=[J('h_stream', 'stream_history', 60, {'steps': 4, 'sizes': 4}, thorough=dict(params={'steps': 5, 'sizes': 6}, t=3000)), J('h_stream', 'stream_history', 60, {'steps': 3, 'sizes': 10, 'pre': 3}, thorough=dict(params={'steps': 4}, t=3000)),
          J('h_stream', 'stream_history', 60, {'steps': 4, 'sizes': 4, 'pre': 2, 'reader': 0}, thorough=dict(params={'steps': 6}, t=3000)), J('h_stream', 'stream_corrupt', 60, {'pre': 3}, thorough=dict(params={'pre': 5}, t=2000)),
          J('h_stream', 'stream_pos', 60, {'n': 3, 'sizes': 7}, thorough=dict(params={'n': 4, 'sizes': 8}, t=2000)), J('h_stream', 'stream_changelog', 60, {'n': 2, 'logs': 2}, thorough=dict(params={'n': 3, 'logs': 3}, t=3000)), J('h_stream', 'stream_meta', 60, {'steps': 4, 'sizes': 4}, thorough=dict(params={'steps': 6, 'sizes': 6}, t=3000))] +
         [J('h_stream', 'stream_crash', 60, {'pre': n, 'sizes': 8}, thorough=dict(params={'steps': 3}, t=2000)) for n in (0, 1, 3, 6)] + [J('h_stream', 'stream_crash', 60, {'pre': n, 'sizes': 8, 'follow': f}, thorough=dict(params={'steps': 3}, t=2000)) for n in (0, 1, 2, 5) for f in (1, 2)]),
 'C15': dict(bounds='batches of up to 4 operations (add, remove, bulk add/remove of one tag, flush, reopen, drop pending) on 1-3 tags of up to 2 objects on top of up to 36 tagged objects, or up to 16 tags; short (64-bit) and long (two-part) tags; objects known by value or by an identity assigned before the flush; one object instance id symbolic while storage addresses equal object identities; allocator and disk replaced by simple stand-ins',
    jobs=[J('h_tags', 'tags_short', 60, p, thorough=dict(params={'steps': p['steps'] + 1}, t=3000)) for p in ({'steps': 4}, {'steps': 3, 'base': 67108864, 'ops': 5}, {'steps': 4, 'late': 1}, {'steps': 3, 'pre': 2}, {'steps': 3, 'pre': 4}, {'steps': 3, 'pre': 6}, {'steps': 2, 'pre': 20}, {'steps': 2, 'pre': 36}, {'steps': 3, 'pre': 3, 'cache': 1}, {'steps': 4, 'tags': 3, 'objects': 1})] +
         [J('h_tags', 'tags_short', 100, p, thorough=dict(params={'steps': p['steps'] + 1}, t=3000)) for p in ({'steps': 1, 'ops': 36, 'pre': 16, 'page': 128}, {'steps': 2, 'ops': 36, 'pre': 6, 'page': 128}, {'steps': 2, 'ops': 36, 'tags': 10, 'page': 128, 'objects': 1}, {'steps': 2, 'ops': 36, 'pre': 8, 'tags': 1})] +
         [J('h_tags', 'tags_long', 60, {'steps': 3}, thorough=dict(params={'steps': 4}, t=3000)), J('h_tags', 'tags_long', 60, {'steps': 2, 'pre': 5}, thorough=dict(params={'steps': 3}, t=3000))]),
 'C16': dict(bounds='3 operations on a pool with up to 5 names, names of up to 2 arbitrary bytes, counts up to 3; allocator and disk replaced by simple stand-ins',
    jobs=[J('h_tags', 'pool_strings', 100, p, thorough=dict(params={'steps': p['steps'] + 1}, t=3000)) for p in ({'steps': 3}, {'steps': 2, 'pre': 5}, {'steps': 4, 'len': 1})]),
}
