# What decides each property: which harness, in which configuration of the library (conf: 0 bitset<64>
# and string identifiers, 1 flat_set and string identifiers, 2 flat_set, unsigned identifiers and
# narrow variable types, 3 bitset<128>), in which build, on how many cases.
_UB = '-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -fno-omit-frame-pointer'.split()
_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:strict_init_order=1:quarantine_size_mb=32',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'LSAN_OPTIONS': 'exitcode=23:use_unaligned=1',
}
BUILDS = {
    # the checked containers and iterators of libstdc++
    'gdebug': dict(cxx='g++', flags=['-g1', '-O1', '-D_GLIBCXX_DEBUG'], alloc='alloc_none.cc', weight=2),
    # internal assertions on, address and undefined-behaviour sanitizers
    'asan': dict(cxx='g++', flags=['-g1', '-O1', '-D_GLIBCXX_ASSERTIONS'] + _UB, alloc='alloc_none.cc', env=_ENV, weight=3),
    'casan': dict(cxx='clang++', flags=['-g1', '-O1', '-D_GLIBCXX_ASSERTIONS'] + _UB, alloc='alloc_none.cc', env=_ENV, weight=3),
    # the same without stack instrumentation, for the harnesses that switch stacks (enumeration of paths)
    'hasan': dict(cxx='g++', flags=['-g1', '-O1', '-D_GLIBCXX_ASSERTIONS', '-DVF_PATHS', '--param', 'asan-stack=0'] + _UB, alloc='alloc_none.cc', env=_ENV, weight=3),
    # memcheck: uninitialised reads and leaks
    'vg': dict(cxx='g++', flags=['-g', '-O1'], alloc='alloc_none.cc', weight=4,
               wrap=['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=9', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--show-leak-kinds=definite,indirect']),
    # internal assertions on, allocator monitor with seeded address order and reuse
    'plain': dict(cxx='g++', flags=['-g1', '-O1'], alloc='alloc.cc', weight=1),
    # as shipped: optimised, assertions off, same allocator monitor
    'opt': dict(cxx='g++', flags=['-g1', '-O2', '-DNDEBUG'], alloc='alloc.cc', weight=2),
    'copt': dict(cxx='clang++', flags=['-g1', '-O2', '-DNDEBUG'], alloc='alloc.cc', weight=2),
}


def U(src, build, conf, cases, mode='', **k):
    return dict(src=src, build=build, conf=conf, cases=cases, mode=mode, **k)


_ALG = 'each case draws an order (flat, wide, deep or nested up to 4 levels), a domain and injection of values, sizes of tables and caches, and a random program of 30-60 set operations over a pool of diagrams; non-trivial: some result holds at least two assignments; distinct by the digest of all results'

_HOM = 'each case draws an order (1-6 leaves, nested up to 4 levels), sizes of tables and caches, 2-6 operand diagrams and 4-8 random terms (every kind of operation, depth up to 5, bounded nets); non-trivial: some application yields at least two assignments and differs from its operand; distinct by the digest of all terms and results'

PROPS = {
    'C01': dict(technique='runtime monitor: online canonicity and structure checker over random operation histories, against explicit sets; ASan/UBSan builds and adversarial address order', rule=_ALG, require=['equal_pairs', 'different_pairs', 'op_rebuild', 'op_drop', 'families', 'huge_operations'], deeper=25, units=[
        U('h_algebra', 'plain', 0, 6000, 'C01'), U('h_algebra', 'plain', 1, 6000, 'C01'), U('h_algebra', 'opt', 2, 3000, 'C01'),
        U('h_algebra', 'asan', 1, 1200, 'C01'), U('h_algebra', 'casan', 3, 1200, 'C01'),
        U('h_hom', 'plain', 0, 9000, 'C01'), U('h_hom', 'opt', 1, 9000, 'C01')]),
    'C02': dict(technique='runtime monitor: differential oracle (explicit sets) over random set-operation histories; ASan/UBSan builds and adversarial address order', rule=_ALG, require=['op_other', 'op_union', 'op_intersection', 'op_difference', 'op_nary_union', 'op_nary_intersection', 'op_compound', 'op_growing', 'family_operations', 'huge_operations'], deeper=25, units=[
        U('h_algebra', 'plain', 0, 8000, 'C02'), U('h_algebra', 'plain', 1, 8000, 'C02'), U('h_algebra', 'opt', 2, 4000, 'C02'),
        U('h_algebra', 'asan', 1, 1500, 'C02'), U('h_algebra', 'casan', 3, 1500, 'C02')]),
    'C04': dict(technique='runtime monitor: differential oracle (reference interpreter of operation terms on explicit sets) over random terms and nets; ASan/UBSan builds', rule=_HOM, deeper=25,
        require=['settling', 'leaf_unions', 'term_const', 'term_comp', 'term_sum', 'term_inter', 'term_fix', 'term_ite', 'term_local', 'term_fun', 'term_ind_skip', 'term_ind_walk', 'term_ind_mod', 'term_ind_deep', 'term_ind_pair', 'cons', 'applications_changing', 'large_terms'],
        units=[U('h_hom', 'plain', 0, 9000, 'C04'), U('h_hom', 'plain', 1, 9000, 'C04'), U('h_hom', 'opt', 2, 9000, 'C04'), U('h_hom', 'asan', 1, 1500, 'C04'), U('h_hom', 'casan', 3, 1500, 'C04')]),
    'C05': dict(technique='runtime monitor: rewritten vs original term, both against a reference interpreter, over random terms, nets and nestings; ASan/UBSan builds', rule=_HOM, deeper=25,
        require=['settling', 'leaf_unions', 'rewritten', 'unchanged', 'rewritten_changing', 'nestings', 'large_terms'],
        units=[U('h_hom', 'plain', 0, 9000, 'C05'), U('h_hom', 'plain', 1, 9000, 'C05'), U('h_hom', 'opt', 2, 9000, 'C05'), U('h_hom', 'asan', 1, 1500, 'C05'), U('h_hom', 'casan', 3, 1500, 'C05')]),
    'C16': dict(technique='runtime monitor: online checker of term identity, selector and skip answers against a reference interpreter; ASan/UBSan builds', rule=_HOM, deeper=25,
        require=['settling', 'leaf_unions', 'identified_pairs', 'distinct_pairs', 'term_families', 'selectors', 'not_selectors', 'skips_checked', 'cons_built', 'rewritten_answers', 'large_terms'],
        units=[U('h_hom', 'plain', 0, 9000, 'C16'), U('h_hom', 'plain', 1, 9000, 'C16'), U('h_hom', 'opt', 2, 9000, 'C16'), U('h_hom', 'asan', 1, 1500, 'C16'), U('h_hom', 'casan', 3, 1500, 'C16')]),
    'C03': dict(technique='runtime monitor: size against inclusion-exclusion and explicit sets, offline check of recorded enumerations (disjoint, complete), interleaved and abandoned generators; ASan/UBSan build', deeper=25,
        rule='each case draws an order and diagrams: small ones with explicit sets and up to 5 interleaved enumerations, unions of boxes over 10-210 variables, or 300-1500 levels; non-trivial: some diagram holds at least two assignments; distinct by the digest of all sets and sizes',
        require=['sizes', 'beyond_64_bits', 'interleaved', 'abandoned', 'outlived_handles', 'deep', 'big_enumerations', 'work_between'],
        units=[U('h_count', 'plain', 0, 8000), U('h_count', 'plain', 1, 8000), U('h_count', 'opt', 2, 8000), U('h_count', 'hasan', 1, 1200), U('h_count', 'hasan', 3, 1200)]),
    'C06': dict(technique='runtime monitor: replay of one program under many configurations, resets, noise and evictions, each against explicit sets; ASan/UBSan builds', deeper=25,
        rule='each case draws a program of 25-55 set operations, operations on growing lists of operands and operation terms and runs it 5 times (roomy, minimal and random sizes; with and without resets and unrelated work); non-trivial: some result holds at least two assignments; distinct by the digest of all results',
        require=['op_other', 'configurations_compared', 'resets', 'noise', 'churn', 'op_growing'],
        units=[U('h_config', 'plain', 0, 4000), U('h_config', 'plain', 1, 4000), U('h_config', 'opt', 2, 4000), U('h_config', 'asan', 1, 400), U('h_config', 'casan', 3, 400)]),
    'C07': dict(technique='sanitizers: ASan+UBSan+LSan (g++ and clang++), valgrind memcheck, checked iterators of libstdc++, allocator monitor and internal assertions under hostile handle, term, value, order and generator workloads', deeper=15,
        rule='each case draws an order, sizes of tables and caches down to the minimum and 2-4 episodes of hostile use (self and inner assignment, moves, swaps, containers of handles, resets, drops), or is a case of another property\'s workload; every case is non-trivial; distinct by the digest of its random choices',
        require=['self_assign', 'self_move', 'self_swap', 'inner_assign', 'inner_assign_held', 'inner_term', 'own_values', 'own_parts', 'crowds', 'handles', 'terms', 'values', 'orders', 'leak_checks', 'generators', 'applications', 'interleaved'],
        units=[U('h_mem', 'asan', 1, 3000, leaks=True), U('h_mem', 'casan', 0, 3000), U('h_mem', 'hasan', 2, 2000, leaks=True), U('h_mem', 'vg', 1, 1000), U('h_mem', 'plain', 2, 6000),
               U('h_hom', 'casan', 3, 1500, 'C04', lenient=True), U('h_hom', 'casan', 3, 1000, 'C05', lenient=True), U('h_algebra', 'asan', 1, 1200, 'C02', lenient=True), U('h_count', 'hasan', 1, 600, lenient=True),
               U('h_algebra', 'gdebug', 0, 1200, 'C02', lenient=True), U('h_hom', 'gdebug', 1, 1200, 'C05', lenient=True), U('h_count', 'gdebug', 2, 600, lenient=True), U('h_order', 'gdebug', 2, 3000, 'C11', lenient=True), U('h_tools', 'gdebug', 1, 500, lenient=True),
               U('h_fault', 'asan', 1, 500, lenient=True), U('h_manager', 'asan', 0, 500, lenient=True), U('h_containers', 'asan', 1, 4000, lenient=True), U('h_values', 'casan', 0, 1500, lenient=True), U('h_order', 'casan', 2, 3000, 'C10', lenient=True)]),
    'C08': dict(technique='runtime monitor: conservation of live nodes, terms, value sets and bytes across rounds of dropped work; stability of held handles; ASan/UBSan build', deeper=20,
        rule='each case draws an order, cache sizes and 3-7 rounds of work dropped at the end of the round (some handles kept), with the caches flushed in between, or a history of 1500 operations; every case is non-trivial; distinct by the digest of the results',
        require=['exact_returns', 'bounded_returns', 'held_checks', 'rounds', 'histories', 'memory_checks', 'crowds'],
        units=[U('h_live', 'plain', 0, 2500), U('h_live', 'plain', 1, 2500), U('h_live', 'opt', 2, 2500), U('h_live', 'hasan', 1, 300), U('h_mem', 'asan', 1, 1000, lenient=True)]),
    'C09': dict(technique='runtime monitor with fault injection: exceptions thrown from user callbacks at every point of an evaluation, incompatible operands, capacity overflows; conservation and retry against a reference interpreter; ASan/UBSan builds', deeper=25,
        rule='each case draws an order, diagrams and terms holding user functions, counts the calls an evaluation makes, then makes chosen calls throw (first, last, random), retries, and checks every handle, all other operations and the number of live objects; or incompatible operands, wrong arguments, and nodes with more arcs than the configuration can store; every case is non-trivial; distinct by the digest of the results',
        require=['incompatible_lists', 'faults', 'faults_first', 'retries', 'others_after', 'initializer_faults', 'conserved', 'incompatible', 'incompatible_terms', 'capacity_errors', 'capacity_fits', 'arguments_refused', 'arguments_accepted', 'unknown_identifiers'],
        units=[U('h_fault', 'plain', 0, 6000), U('h_fault', 'plain', 1, 6000), U('h_fault', 'opt', 2, 6000), U('h_fault', 'asan', 1, 900), U('h_fault', 'casan', 2, 900)]),
    'C10': dict(technique='runtime monitor: differential oracle (explicit tree of identifiers) over random builder histories and orders; ASan/UBSan builds', deeper=25,
        rule='each case draws a history of order-builder operations (push, append, nest, copy, assign, move) with a mirror tree, builds orders, walks and looks up every identifier, and compares near-equal orders; non-trivial: an order of at least two identifiers; distinct by the digest of the trees',
        require=['builders_checked', 'orders_checked', 'identifiers_checked', 'duplicates_raised', 'unknown_raised', 'equal_orders', 'different_orders', 'near_misses', 'parts_checked', 'big_orders'],
        units=[U('h_order', 'plain', 0, 20000, 'C10'), U('h_order', 'plain', 2, 20000, 'C10'), U('h_order', 'opt', 1, 20000, 'C10'), U('h_order', 'asan', 1, 5000, 'C10'), U('h_order', 'casan', 2, 5000, 'C10')]),
    'C11': dict(technique='runtime monitor: conservation of identifiers and independent recomputation of spans from the arrangements FORCE reports; ASan/UBSan builds', deeper=25,
        rule='each case draws a builder and flattens or groups it, or a hypergraph of identifiers and runs FORCE on it; non-trivial: at least two identifiers; distinct by the digest of the resulting orders',
        require=['flattened', 'grouped', 'forced', 'force_spans_differ', 'force_last_not_best', 'force_duplicates', 'orders_used'],
        units=[U('h_order', 'plain', 0, 40000, 'C11'), U('h_order', 'plain', 2, 40000, 'C11'), U('h_order', 'opt', 1, 40000, 'C11'), U('h_order', 'asan', 1, 6000, 'C11'), U('h_order', 'casan', 2, 6000, 'C11')]),
    'C12': dict(technique='runtime monitor: differential oracle (std::set) over random histories of value sets, with pairwise hash and order laws; ASan/UBSan builds', deeper=25,
        rule='each case draws a type of value sets (bitset of 1 to 200 values, flat_set over several types) and a history of 30-80 operations on a pool mirrored by std::set; non-trivial: some set holds at least two values; distinct by the digest of all sets',
        require=['from_range', 'from_list', 'inserted', 'insert_present', 'erased', 'erase_absent', 'union', 'intersection', 'difference', 'rebuilt', 'equal_pairs', 'different_pairs', 'bit_union', 'bit_shifted_up'],
        units=[U('h_values', 'plain', 0, 12000), U('h_values', 'opt', 0, 12000), U('h_values', 'copt', 0, 12000), U('h_values', 'asan', 0, 2500), U('h_values', 'casan', 0, 2500)]),
    'C13': dict(technique='runtime monitor: histories of initialisations, copies and ends of managers of several configurations, each life checked from an empty state; ASan/UBSan/LSan builds', deeper=25,
        rule='each case draws a history of initialisations, refused initialisations, manager copies, moves and drops over several configurations, with work and held handles in between; every case is non-trivial; distinct by the digest of the history',
        require=['same_sizes', 'refused', 'reborn', 'copies', 'copies_dropped', 'ended', 'coexist', 'held_checks', 'terms_used', 'work'],
        units=[U('h_manager', 'plain', 0, 6000), U('h_manager', 'opt', 0, 6000), U('h_manager', 'copt', 0, 6000), U('h_manager', 'asan', 0, 900, leaks=True), U('h_manager', 'casan', 0, 900)]),
    'C14': dict(technique='runtime monitor: reference models (set of live data, LRU list, live blocks) run beside the unique table, pointers, cache and arena over random histories with hostile hashes, nested and failing evaluations; ASan/UBSan builds', deeper=40,
        rule='each case draws one component, its sizes, a way keys share buckets and a history of 50-300 operations mirrored by a reference model (or a whole manager and repeated set operations); every case is non-trivial; distinct by the digest of the outcome',
        require=['table_inserted', 'table_found', 'table_erased', 'table_cleared', 'table_committed', 'rehashes', 'shared_buckets', 'unique_hits', 'unique_misses', 'unique_rehash', 'last_dropped', 'not_last_dropped', 'ptr_assigned', 'ptr_moved', 'ptr_swapped', 'hits', 'misses', 'filtered', 'evictions', 'capacities_found', 'cache_failures', 'cache_cleared', 'arena_inside', 'arena_outside', 'arena_not_last', 'arena_rewound', 'arena_containers', 'arena_adjacent', 'powers', 'repeated', 'managers'],
        units=[U('h_containers', 'plain', 1, 40000), U('h_containers', 'plain', 0, 40000), U('h_containers', 'opt', 1, 40000), U('h_containers', 'asan', 1, 8000), U('h_containers', 'casan', 2, 8000)]),
    'C15': dict(technique='runtime monitor: output of every inspection tool parsed back and compared with an independent traversal of the diagram; ASan/UBSan builds', deeper=25,
        rule='each case draws an order, 4-11 diagrams, operation terms (as built and as rewritten) and a hypergraph; counts, statistics, text and Graphviz exports of each are parsed and compared; non-trivial: some diagram has at least two arcs; distinct by the digest of the counts',
        require=['wide_nodes', 'counted', 'hierarchical', 'dots', 'dot_nodes', 'printed', 'terminals', 'orders_printed', 'hypergraphs', 'manager_statistics', 'terms_drawn', 'saturations_drawn'],
        units=[U('h_tools', 'plain', 0, 8000), U('h_tools', 'plain', 1, 8000), U('h_tools', 'opt', 2, 8000), U('h_tools', 'asan', 1, 1500), U('h_tools', 'casan', 3, 1500)]),
}
