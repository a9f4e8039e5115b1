import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None)))
p("C01","Canonicity: two diagrams are equal exactly when they denote the same set",
 "Over one order, two diagrams compare equal (and then hash equal) if and only if they denote the same set of assignments, whatever sequence of constructions, set operations, drops and rebuilds produced them, and a diagram is the empty one exactly when its set is empty. Every reachable node is a proper partition: at least one arc, non-empty pairwise disjoint valuations, pairwise distinct non-empty successors, and the variable and kind (flat or hierarchical) that its level of the order prescribes.",
 ["inputs","histories","configurations"],"all orders (flat, nested), all value types, all construction histories including garbage collection and address reuse in between",
 "tests compare a few dozen hand-written diagrams of at most three levels; a broken partition, a missed unification after a collection or a rehash only shows on other histories",
 ["sdd/dd/definition.hh","sdd/dd/node.hh","sdd/dd/alpha.hh","sdd/dd/square_union.hh","sdd/dd/sum.hh","sdd/dd/intersection.hh","sdd/dd/difference.hh","sdd/mem/unique_table.hh","sdd/mem/hash_table.hh"],
 [("hash-consing of nodes","SDD::unify_node, mem::unique_table"),("arcs sorted by successor, one per successor","dd::alpha_builder"),("merging of valuations with a common successor","dd::square_union")],
 ["operator==, std::hash of diagrams","visit over nodes and arcs"],[("unique table","all live nodes","internal_manager")])
p("C02","Union, intersection and difference are exact set algebra",
 "The union, intersection and difference of diagrams over a common order denote exactly the union, intersection and difference of the sets they denote. This holds for the binary, compound-assignment and n-ary forms, any number, order and repetition of operands (the empty diagram and an operand used twice included), flat or nested levels, and every type of values.",
 ["inputs","configurations"],"all operand tuples over all orders and value types",
 "tests check one or two operand shapes per code path; the linear path for sorted values, the general path and the nested path each split and merge partitions in input-dependent ways",
 ["sdd/dd/sum.hh","sdd/dd/intersection.hh","sdd/dd/difference.hh","sdd/dd/nary.hh","sdd/dd/square_union.hh","sdd/dd/operations_fwd.hh"],
 [("partition merging","sum_op_impl::work, sum_op_impl::linear path"),("pairwise arcs products","intersection_op_impl, difference_op")],
 ["+, &, -, +=, &=, -=, sum, intersection on diagrams"])
p("C03","Counting and path enumeration agree exactly with the denoted set",
 "The size of a diagram is the exact number of assignments it denotes, with no overflow whatever its magnitude. Enumerating its paths yields pairwise disjoint boxes of values, in the order's flat variable order, whose union is exactly the denoted set; an enumeration may be interleaved with others, abandoned early, or outlive the diagram handle it was made from.",
 ["inputs","histories"],"all diagrams, including shared, nested and astronomically large ones, and all interleavings of enumerations",
 "tests count and enumerate a handful of small diagrams",
 ["sdd/dd/count_combinations.hh","sdd/dd/path_generator.hh","sdd/dd/sdd_stack.hh"],
 [("memoised multiprecision count","dd::count_combinations"),("coroutine walk with a stack of pending successors","dd::paths_visitor")],
 ["SDD::size, SDD::paths"])
p("C04","Applying an operation term computes exactly its denotation",
 "Applying any homomorphism term to a diagram yields exactly the set its mathematical definition gives: identity, constant, cons, composition, union, intersection, fixpoint, conditional, local application in a nested level, user functions on values (selectors and shifters included) and user inductive operations, in any nesting. Construction-time simplifications of terms and propagation past unaffected levels never change the result; in particular a fixpoint over a transition relation yields exactly the reachable states.",
 ["inputs","programs"],"all terms (intersections under a local or a fixpoint restricted to selectors), all orders, all operand diagrams",
 "tests apply one or two constructors to tiny diagrams; wrong results need particular nestings (e.g. regrouping of locals, skipping, shifters producing colliding successors)",
 ["sdd/hom/definition.hh","sdd/hom/evaluation.hh","sdd/hom/composition.hh","sdd/hom/sum.hh","sdd/hom/intersection.hh","sdd/hom/fixpoint.hh","sdd/hom/function.hh","sdd/hom/inductive.hh","sdd/hom/if_then_else.hh","sdd/hom/local.hh","sdd/hom/cons.hh","sdd/hom/constant.hh","sdd/order/carrier.hh"],
 [("skip propagation","hom::evaluation"),("builders flattening and regrouping operands","composition_builder, sum_builder, intersection_builder")],
 ["homomorphism::operator()"])
p("C05","Rewriting for saturation never changes what a term computes",
 "For every order and every term, the rewritten term applied to any diagram over that order gives exactly the same diagram as the original term. Rewriting is idempotent in effect and independent of how the order nests its variables.",
 ["inputs","programs"],"all terms and orders, in particular unions, intersections and fixpoints mixing operations that skip levels, act locally or span levels",
 "tests compare the syntactic form of a few rewritten terms and never the computed results on generated models",
 ["sdd/hom/rewrite.hh","sdd/hom/saturation_sum.hh","sdd/hom/saturation_intersection.hh","sdd/hom/saturation_fixpoint.hh"],
 [("F/G/L partition by level","hom::rewriter::partition"),("chained saturation","hom::_saturation_fixpoint")],
 ["rewrite then homomorphism::operator()"])
p("C06","Results never depend on caches, table sizes, resets or earlier work",
 "The diagram computed by a given sequence of operations denotes the same set for every admissible configuration of cache, table and temporary-buffer sizes, with or without intermediate cache resets, and whatever unrelated computations, drops and evictions happened before or in between. No cached entry is ever returned for a different operation.",
 ["configurations","histories"],"all configurations from the smallest admissible sizes up, all histories of resets and unrelated work, all memory layouts",
 "tests use one configuration large enough that nothing is ever evicted, rehashed or spilled from the temporary buffer, and never reset the cache",
 ["sdd/mem/cache.hh","sdd/mem/cache_entry.hh","sdd/mem/lru_list.hh","sdd/mem/hash_table.hh","sdd/mem/linear_alloc.hh","sdd/dd/context.hh","sdd/hom/context.hh","sdd/hom/evaluation.hh"],
 [("LRU eviction","mem::cache"),("entries hold references to operands and results","mem::cache_entry"),("bump allocation with rewind and heap fallback","mem::linear_alloc, mem::rewinder")],
 ["all operations, manager::reset_hom_cache"])
p("C07","No memory error, undefined behaviour or leak under any valid use",
 "No sequence of valid API calls reads or writes memory out of bounds, after free, or uninitialised, frees memory twice, triggers undefined behaviour or an internal assertion, or leaks memory once every handle and the manager are gone. This includes handle copies, moves, self-assignments and swaps, and assigning to a handle from a reference into the diagram it holds.",
 ["histories","inputs","configurations"],"all valid call sequences (deliberate unaligned access of the packed node layout excepted)",
 "tests run uninstrumented, with short-lived diagrams and no address reuse",
 ["sdd/mem/ptr.hh","sdd/mem/unique.hh","sdd/mem/unique_table.hh","sdd/mem/variant.hh","sdd/mem/linear_alloc.hh","sdd/mem/cache.hh","sdd/dd/node.hh","sdd/dd/nary.hh","sdd/hom/sum.hh","sdd/hom/saturation_fixpoint.hh","sdd/values/flat_set.hh"],
 [("intrusive reference counting","mem::ptr"),("placement of arcs and operands behind their owner","dd::alpha_builder::consolidate, hom::consolidate"),("scoped arena rewind","mem::rewinder")],
 ["whole public API under sanitizers"])
p("C08","Held diagrams never change; dropped ones are reclaimed",
 "As long as a handle to a diagram or operation term is held, what it denotes, its equality with other handles and its hash stay the same, whatever else is computed or dropped. Once no handle and no cache entry refers to a node, a term or a set of values, it is removed, so the reported number of live objects returns to its earlier level and a long history of dropped work does not grow memory.",
 ["histories"],"all histories of creation, copying, moving, dropping and cache turnover",
 "tests hold every diagram until the end and never look at live counts",
 ["sdd/mem/ptr.hh","sdd/mem/unique.hh","sdd/mem/unique_table.hh","sdd/mem/cache.hh","sdd/internal_manager.hh","sdd/values/flat_set.hh"],
 [("reference counting with deletion handlers","mem::ptr, internal_manager::ptr_handlers"),("eviction releases references","mem::cache")],
 ["handles; manager statistics of live objects"],[("reference counter","number of handles","mem::unique")])
p("C09","Errors surface as exceptions and leave everything usable",
 "Operations on incompatible diagrams raise the incompatibility exception, which carries the offending operands, and exceptions thrown by user functions at any point of an evaluation propagate to the caller unchanged. After any such exception every existing handle still denotes what it did, and every operation, including the interrupted one, gives its correct result when tried again; no partial result is ever cached.",
 ["fault_sequences","inputs","histories"],"every point at which a user operation can throw, every pair of incompatible diagrams, repeated faults",
 "tests throw at one fixed point and check only that the exception arrives",
 ["sdd/dd/top.hh","sdd/dd/check_compatibility.hh","sdd/dd/nary.hh","sdd/mem/cache.hh","sdd/mem/linear_alloc.hh","sdd/hom/evaluation.hh","sdd/dd/definition.hh"],
 [("entry inserted only after successful evaluation","mem::cache::operator()"),("scoped rewind of temporaries","mem::rewinder"),("compatibility checks","dd::check_compatibility, nary_op")],
 ["exceptions at operator boundaries; results after recovery"])
p("C10","Orders map identifiers, levels and nesting faithfully",
 "An order built from any builder has exactly the builder's identifiers, in the same nesting and sequence: per level, variables decrease by one down to zero, positions are numbered in pre-order, and looking an identifier up gives its variable, position and the exact chain of enclosing levels. Listing the flat identifiers gives the leaves from top to bottom, equality of orders is equality of structure (and equal orders hash equal), a duplicate or unknown identifier raises the corresponding error naming it, and builders are unaffected by later use of their copies.",
 ["inputs","histories"],"all builders, nested to any depth and assembled in any way",
 "tests build a few orders of two or three identifiers",
 ["sdd/order/order.hh","sdd/order/order_node.hh","sdd/order/order_builder.hh","sdd/order/order_identifier.hh","sdd/order/order_error.hh","sdd/order/carrier.hh"],
 [("recursive numbering","order::mk_nodes_ptr"),("identifier map","order::mk_identifier_to_node"),("persistent lists","order_builder")],
 ["order, order_builder accessors"])
p("C11","Ordering strategies keep all identifiers and honour their contract",
 "Flattening an order, grouping it into hierarchies of at most n identifiers and the FORCE heuristic each return an order with exactly the identifiers given, none lost or duplicated. Flattening and grouping keep the sequence of flat identifiers, grouping a flat order makes no level larger than n (n at least 2), and FORCE returns, among the arrangements it evaluated, one whose total span is the smallest it reports.",
 ["inputs"],"all orders, group sizes, hypergraphs, weights, iteration counts and directions",
 "only flattening of orders with at most three identifiers is tested; grouping and FORCE are never executed",
 ["sdd/order/strategies/flatten.hh","sdd/order/strategies/identifiers_per_hierarchy.hh","sdd/order/strategies/force.hh","sdd/order/strategies/force_hypergraph.hh","sdd/order/strategies/force_hyperedge.hh","sdd/order/strategies/force_vertex.hh"],
 [("packetisation","identifiers_per_hierarchy"),("best order kept","force::worker")],
 ["strategies' returned builders, force::worker::spans"])
p("C12","Sets of values behave as mathematical sets with consistent hashing",
 "Each provided type of value sets implements exactly finite sets: construction, insertion, removal, lookup, iteration, size, union, intersection, difference and shifts agree with a mathematical set whatever the history. Equal sets compare equal and hash equal whatever their history, different sets differ, the ordering is a strict total order consistent with equality, and the iterator an insertion returns designates the inserted value in the resulting set.",
 ["inputs","histories"],"all sets, any size of domain, all sequences of modifications",
 "tests check a few literal sets; bitsets above 64 values are never ordered or hashed",
 ["sdd/values/flat_set.hh","sdd/values/bitset.hh","sdd/values/empty.hh","sdd/values/size.hh","sdd/values_manager.hh"],
 [("unification of sorted vectors","values::flat_set::unify"),("bitwise operations","values::bitset")],
 ["values::flat_set, values::bitset and their free functions"])
p("C13","The library's lifetime is exactly the manager's lifetime",
 "Initialising a configuration that is live, or whose type of values is already managed by another live configuration, raises an error and leaves the live one fully working; independent configurations coexist without influencing each other. The library stays usable as long as any copy of the manager exists, and after the last copy is gone it can be initialised again, any number of times and with other sizes, starting from an empty state with nothing left of the previous life.",
 ["histories","configurations"],"all sequences of initialisations, manager copies and destructions across configurations",
 "tests initialise one configuration per test and never a second time, nor two sharing a type of values",
 ["sdd/manager.hh","sdd/internal_manager.hh","sdd/values_manager.hh","sdd/mem/ptr.hh"],
 [("guarded global pointers","sdd::init, manager_impl"),("deletion handlers set and reset","internal_manager::ptr_handlers, flat_set_manager")],
 ["sdd::init, manager copies, statistics after init"])
p("C14","Containers underneath: unification, bounded LRU cache, arena, statistics",
 "Over any history, the unique table keeps exactly one live copy of each value, returns that copy for every equal insertion and forgets erased ones, across rehashes; the cache never exceeds its fixed capacity, evicts exactly the least recently used entry, never re-evaluates an entry it holds and never stores filtered or failed operations; the temporary allocator never hands out overlapping live blocks, inside or beyond its buffer. Reported counters (hits, misses, filtered, discarded, sizes, buckets, peaks) equal what actually happened.",
 ["histories","inputs"],"all operation histories, table sizes, hash collision patterns and element sizes",
 "tests insert at most a few elements with benign hashes",
 ["sdd/mem/hash_table.hh","sdd/mem/unique_table.hh","sdd/mem/cache.hh","sdd/mem/lru_list.hh","sdd/mem/linear_alloc.hh","sdd/mem/ptr.hh","sdd/mem/variant.hh","sdd/util/next_power.hh"],
 [("intrusive chained hash table","mem::hash_table"),("LRU list spliced on hits","mem::cache"),("stack-like arena","mem::linear_alloc")],
 ["mem::* containers and statistics"])
p("C15","Inspection and export tools report the actual diagram",
 "Node, arc and memory-size counts, arc frequencies, textual output and Graphviz exports of a diagram describe exactly its shared structure: every distinct reachable node once, every arc with its values and successor, nothing else, as an independent traversal finds. The Graphviz export of an operation term draws each distinct composition, union, conditional, fixpoint, local application, function and saturation once, with exactly its operands. Printing an order lists its identifiers, variables and nesting. Inspecting never modifies a diagram or a term.",
 ["inputs"],"all diagrams, flat or nested, with any sharing, and all terms",
 "tests check node and arc counts of a few diagrams; the exports and statistics are never run",
 ["sdd/tools/nodes.hh","sdd/tools/arcs.hh","sdd/tools/size.hh","sdd/tools/sdd_statistics.hh","sdd/tools/dot/sdd.hh","sdd/tools/dot/homomorphism.hh","sdd/tools/dot/force_hypergraph.hh","sdd/tools/manager_statistics.hh"],
 [("visitors with a visited cache","tools::*")],
 ["tools' return values and output streams"])
p("C16","Terms are canonical and their selector and skip answers are sound",
 "Building the same term twice from equal parts gives equal, equally hashing terms, and operand order and duplicates in unions and intersections are irrelevant; identity is neutral for composition, and terms that differ in behaviour are never identified. A term that reports being a selector only ever removes assignments, and a term that reports skipping a level leaves that level's values untouched on every diagram.",
 ["inputs","programs"],"all terms, orders and diagrams",
 "tests check the flags and identities of single constructors on one instance each",
 ["sdd/hom/definition.hh","sdd/hom/identity.hh","sdd/hom/composition.hh","sdd/hom/sum.hh","sdd/hom/intersection.hh","sdd/hom/function.hh","sdd/hom/inductive.hh","sdd/hom/local.hh","sdd/hom/fixpoint.hh","sdd/hom/if_then_else.hh","sdd/hom/saturation_fixpoint.hh","sdd/hom/saturation_sum.hh","sdd/hom/saturation_intersection.hh"],
 [("hash-consing of terms","hom::make, mem::unique_table"),("structural selector and skip predicates","each term's selector() and skip()")],
 ["operator== and std::hash of terms, selector, skip, application"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
