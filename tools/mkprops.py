import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None,hook=None):
    a={"files":["include/sdsl/"+f if '/' not in f else f for f in files],
       "mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Integer vectors are mutable sequences of w-bit integers under any history",
 "For every element width from 1 to 64 bits and every history of element writes, appends/resizes, width changes, bit-window reads and writes, bitwise operators, iterator and reference arithmetic, copies, moves and swaps, an integer vector reads back exactly the sequence that a plain array of w-bit integers would hold, and no operation changes an element it was not asked to change. The bulk helpers (fill, identity, modulo, bit-compress, widen, bit counting, next/previous set bit) leave exactly the sequence, or return exactly the number, their definition gives. Comparison operators agree with comparing the abstract sequences.",
 ["histories","inputs"],"all widths 1..64, all lengths (word-boundary remainders included), all interleavings of mutating operations",
 "Tests write/read sequential random values for a few fixed sizes; they do not explore histories mixing width changes, bit-window writes across word boundaries, iterator arithmetic and comparisons for every (width, remainder).",
 ["int_vector.hpp","iterators.hpp","util.hpp","bits.hpp","memory_management.hpp"],
 [("packed read/write","int_vector.hpp: operator[], get_int, set_int, int_vector_reference, int_vector_iterator"),("resize/width","int_vector.hpp: resize, bit_resize, width; memory_manager::resize"),("bulk helpers","util.hpp: set_to_value, set_to_id, mod, bit_compress, expand_width, cnt_one_bits, next_bit, prev_bit")],
 ["element reads, size, width, iteration, comparison results"],[("data","the packed sequence","int_vector::m_data,m_size,m_width")])
p("C02","Word-level bit operations and wide integers compute their definitions",
 "Every 64-bit word primitive (population count, position of the i-th set bit, highest/lowest set bit, counts and positions of the 01/10/11 patterns with carry, bit reversal, unary reads, reading and writing bit fields at any offset in memory) returns what its definition over the 64 bits gives, for every word and argument in its documented domain and on every supported instruction-set variant. The 128- and 256-bit integer types implement arithmetic modulo 2^128 and 2^256, with shifts, comparisons, population count and select agreeing with the same value written in base 2.",
 ["inputs","configurations"],"all 64-bit words and argument values; portable and SSE4.2/BMI2 builds; all 128/256-bit operands",
 "Tests compare random words only; rare carries and lookup-table entries, field offsets 0/63/64 crossings and the accelerated variants are not sampled.",
 ["bits.hpp","lib/bits.cpp","uint128_t.hpp","uint256_t.hpp","lib/uint256_t.cpp","lib/uint128_t.cpp"],
 [("broadword tricks and lookup tables","bits.hpp"),("wide integers","uint256_t.hpp, uint128_t.hpp")],["returned words"])
p("C03","Every bitvector representation reports the bits it was built from",
 "A bitvector stored in any compressed or interleaved representation (block-compressed with any supported block size and sampling, sparse, hybrid, interleaved), built from a plain bitvector, from a sorted list of positions or incrementally, reports the same length, the same bit at every position, the same value for every bit window of 1 to 64 bits it offers, and the same bits through its iterators, as the plain bitvector it represents.",
 ["inputs","configurations"],"all bitvectors (empty, all-0, all-1, any density, any length remainder) and all template parameters",
 "Tests use a dozen fixed files and default-ish parameters; block-boundary, class-boundary and sampling-boundary combinations are unbounded.",
 ["bit_vector_il.hpp","rrr_vector.hpp","rrr_vector_15.hpp","rrr_helper.hpp","sd_vector.hpp","hyb_vector.hpp","iterators.hpp"],
 [("interleaved superblocks","bit_vector_il.hpp"),("class/offset block coding","rrr_vector.hpp, rrr_helper.hpp"),("Elias-Fano high/low split","sd_vector.hpp"),("best-of-encodings blocks","hyb_vector.hpp")],["operator[], get_int, size, begin/end"])
p("C04","Rank answers are prefix counts for every structure, pattern and position",
 "For every rank structure, over every bitvector representation and for each supported bit pattern (1, 0, 10, 01, 00, 11), the answer at position i with 0 <= i <= n equals the number of occurrences of the pattern ending before position i. This holds at every position, including the end, for every length and density, after the structure has been copied, moved, or attached to a vector.",
 ["inputs","configurations"],"all bitvectors of every length/density (multi-million-bit ones included), all positions 0..n, all rank structures",
 "Tests check a dozen vectors; the block/superblock boundary arithmetic is correct or wrong only at particular residues, lengths and densities.",
 ["rank_support_v.hpp","rank_support_v5.hpp","rank_support_scan.hpp","rank_support.hpp","bit_vector_il.hpp","rrr_vector.hpp","rrr_vector_15.hpp","sd_vector.hpp","hyb_vector.hpp","bits.hpp"],
 [("two-level directories","rank_support_v.hpp, rank_support_v5.hpp"),("pattern traits with carry","rank_support.hpp")],["rank(i)"])
p("C05","Select answers are exact inverses of rank for every structure and pattern",
 "For every select structure, over every bitvector representation and each supported pattern (1, 0, 10, 01, 00, 11 as offered), the answer for argument i with 1 <= i <= number of occurrences is the position of the i-th occurrence. This holds for every argument, for dense, sparse, clustered and multi-million-bit vectors.",
 ["inputs","configurations"],"all bitvectors, all arguments 1..count, all select structures",
 "Long/mini superblock switching depends on density and total size; tests sample a dozen vectors.",
 ["select_support_mcl.hpp","select_support_scan.hpp","select_support.hpp","bit_vector_il.hpp","rrr_vector.hpp","rrr_vector_15.hpp","sd_vector.hpp","bits.hpp"],
 [("superblock sampling","select_support_mcl.hpp: init_slow, init_fast"),("binary search over samples","rrr_vector.hpp, bit_vector_il.hpp"),("high-part select","sd_vector.hpp")],["select(i)"])
p("C06","Compressed integer vectors and self-delimiting codes lose nothing",
 "A compressed integer vector (difference-coded, variable-length-coded or byte/block-split) built from any sequence of non-negative integers reports the same length and the same value at every index and through its iterators, for every sampling density and code offered. Each self-delimiting code (gamma, delta, Fibonacci, comma of every base) decodes any encoded sequence of codable integers to itself, with the announced code length, from any starting position in the bit stream and for prefix sums of any number of codewords.",
 ["inputs","configurations"],"all integer sequences (0, 1, and maximal values included), all sampling densities, all codes",
 "Tests use a few random files; large values, long codewords spanning words, and sampling remainders are not covered systematically.",
 ["enc_vector.hpp","vlc_vector.hpp","dac_vector.hpp","coder_elias_gamma.hpp","coder_elias_delta.hpp","coder_fibonacci.hpp","coder_comma.hpp","lib/coder_elias_gamma.cpp","lib/coder_elias_delta.cpp","lib/coder_fibonacci.cpp","iterators.hpp"],
 [("sample + difference decoding","enc_vector.hpp"),("sample pointer + decode","vlc_vector.hpp"),("chunk levels with continuation bits","dac_vector.hpp"),("table-driven decoding","lib/coder_*.cpp")],["operator[], size, begin/end, decode, encode, encoding_length"])
p("C07","A buffered file vector is a random-access sequence persisted in its file",
 "For every element width, buffer size and offset, and any history of reads, writes (including appends and writes past the end), sequential appends, iterator use, buffer-size changes, moves, swaps, reset, close and reopen, a buffered file vector reads back the same values as an in-memory array, independent of the buffer size. After it is closed the file, reopened as the same kind or loaded as an ordinary integer vector, contains exactly that sequence with its width and length, for both headered and plain files.",
 ["histories","configurations"],"all operation histories, widths 1..64, buffer sizes, plain and headered files, disk and in-RAM files",
 "Tests use few block sizes and mostly sequential access; block-eviction order, odd buffer sizes and reopening mid-history are not covered.",
 ["int_vector_buffer.hpp","sfstream.hpp","lib/sfstream.cpp"],
 [("one-block write-back cache","int_vector_buffer.hpp: read_block, write_block, read, write")],["reads, size, reopened file content"],
 [("cached block","dirty window of the file","int_vector_buffer: m_buffer,m_begin,m_need_to_write")])
p("C08","A memory-mapped vector stays equal to its file across resize and close",
 "A vector mapped onto a file presents the file's sequence, and after any history of writes, appends, resizes and close, reopening the file by any route yields exactly the resulting sequence, width and length, and the file has no leftover bytes. A read-only mapping never changes its file, a temporary mapping removes its file when destroyed, and moving a mapping transfers these duties.",
 ["histories"],"all histories of open/write/push_back/resize/move/close over typed and untyped widths, read-only and read-write",
 "Tests perform a handful of scripted resizes; moves and growth across mapping granularity are not covered.",
 ["int_vector_mapper.hpp","lib/memory_management.cpp","memory_management.hpp"],
 [("mmap, remap on growth and truncation at close","int_vector_mapper.hpp")],["mapped reads, file bytes after close"])
p("C09","In-RAM files behave like disk files",
 "Files whose name carries the in-RAM prefix behave, through the library's stream and file operations, like disk files: any history of opening (read, write, append, truncate, update), reading, writing, seeking, telling, renaming, removing, sizing and existence tests gives the same observable results, and names are independent of each other (as long as a file is not removed or renamed while a stream is open on it, and a reader repositions itself after another stream changed the file). Concurrent use of distinct in-RAM files from several threads does not lose or mix data.",
 ["histories","schedules"],"all operation histories on several names; all interleavings of threads on distinct names",
 "Tests write and read one small file; mode combinations, seeks past boundaries, renames and threads are not covered.",
 ["ram_fs.hpp","lib/ram_fs.cpp","ram_filebuf.hpp","lib/ram_filebuf.cpp","sfstream.hpp","lib/sfstream.cpp","util.hpp","lib/util.cpp"],
 [("global name to content map","ram_fs"),("stream buffer over a byte vector","ram_filebuf.cpp")],["bytes read, positions, stream state, file size, existence"])
p("C10","Stored structures load back identical and streams are self-delimiting",
 "Any structure of the library written to a stream or file and loaded again (into a fresh or a previously used object) answers every query as the original does, writing it again produces the same bytes, the reported number of written bytes equals the bytes actually written, and several structures written one after another into one stream load back in order. Hashed/typed storage refuses nothing it wrote itself, and support structures work again once attached to the loaded vector.",
 ["inputs","configurations"],"all structure kinds and parameters over all contents, empty ones included",
 "Tests round-trip fixed inputs through a file for some types; loading into used objects, back-to-back streams and byte counts over varied inputs are not checked.",
 ["io.hpp","lib/io.cpp","int_vector.hpp","rank_support_v.hpp","rank_support_v5.hpp","select_support_mcl.hpp","rrr_vector.hpp","sd_vector.hpp","enc_vector.hpp","wt_pc.hpp","wt_int.hpp","wm_int.hpp","wt_gmr.hpp","wt_ap.hpp","wt_rlmn.hpp","csa_wt.hpp","csa_sada.hpp","cst_sct3.hpp","cst_sada.hpp","k2_treap.hpp","bp_support_sada.hpp"],
 [("per-class serialize/load","every structure header"),("file and stream helpers","io.hpp: store_to_file, load_from_file, serialize_vector")],["query answers and bytes before/after"])
p("C11","Copies, moves, assignments and swaps preserve values and independence",
 "For every structure of the library, a copy-constructed or copy-assigned object answers every query as the source did and keeps doing so after the source is modified or destroyed; a move-constructed or move-assigned object answers as the source did before the move; swapping two objects exchanges their answers, and assigning an object to itself changes nothing. This holds whatever the destination held before, empty objects included.",
 ["histories","configurations"],"all structure kinds; all sequences of copy/move/assign/swap among differently-valued objects",
 "Tests exercise copies for some structures, hardly move-assign to non-empty targets, self-assignment, and destruction of the source before use.",
 ["rank_support_v.hpp","rank_support_v5.hpp","select_support_mcl.hpp","bit_vector_il.hpp","rrr_vector.hpp","sd_vector.hpp","hyb_vector.hpp","enc_vector.hpp","dac_vector.hpp","vlc_vector.hpp","wt_pc.hpp","wt_int.hpp","wm_int.hpp","wt_gmr.hpp","wt_ap.hpp","wt_rlmn.hpp","csa_wt.hpp","csa_sada.hpp","csa_bitcompressed.hpp","cst_sct3.hpp","cst_sada.hpp","bp_support_sada.hpp","rmq_succinct_sct.hpp","k2_treap.hpp","util.hpp"],
 [("re-attaching supports to the new owner's vectors","copy/move/swap of each class; util::swap_support, util::init_support")],["query answers"])
p("C12","Every wavelet tree answers point queries exactly as its sequence does",
 "For every wavelet tree or rank/select sequence structure (all shapes, byte and integer alphabets), built from any sequence, its length, alphabet size, symbol at any position, number of occurrences of any symbol before any position, position of the i-th occurrence of any symbol, and symbol-with-rank at any position equal those of the plain sequence; symbols that do not occur have rank 0. Iteration yields the sequence.",
 ["inputs","configurations"],"all sequences (empty, single-symbol, skewed, runs, large sparse alphabets, non power-of-two sizes), all tree types",
 "Tests use some fixed text files; degenerate alphabets, absent symbols and boundary lengths are not systematically covered.",
 ["wt_pc.hpp","wt_helper.hpp","wt_huff.hpp","wt_hutu.hpp","wt_blcd.hpp","wt_int.hpp","wm_int.hpp","wt_gmr.hpp","wt_ap.hpp","wt_rlmn.hpp","inv_perm_support.hpp"],
 [("level-wise rank/select mapping","wt_int.hpp, wm_int.hpp, wt_pc.hpp"),("chunked permutations","wt_gmr.hpp"),("run-length mapping","wt_rlmn.hpp")],["operator[], rank, select, inverse_select, size, sigma"])
p("C13","Wavelet-tree range queries return exactly the qualifying elements",
 "For every tree that offers them, range queries over any position interval and symbol bounds return exactly what scanning the plain sequence returns: numbers of smaller, larger and interval-bounded symbols, the distinct symbols of an interval with their ranks, two-dimensional counts and reported points, quantiles, intersections of several ranges, next larger/smaller-or-equal symbols, and node-wise traversal. Empty intervals give empty results.",
 ["inputs","configurations"],"all sequences, all intervals (empty and full ones included), all symbol bounds",
 "Tests check random intervals of a few files; boundary intervals, bounds outside the alphabet and multi-range queries are rare.",
 ["wt_algorithm.hpp","wt_int.hpp","wm_int.hpp","wt_pc.hpp","wt_helper.hpp"],
 [("range mapping through expand()","wt_algorithm.hpp, wt_int.hpp, wm_int.hpp, wt_pc.hpp")],["lex_count, lex_smaller_count, interval_symbols, range_search_2d, quantile_freq, topk_greedy, intersect, expand"])
p("C14","Suffix array and BWT construction sort the suffixes correctly for any text",
 "For any byte or integer text, every suffix-array construction algorithm yields the permutation that lists the suffixes of the terminated text in increasing lexicographic order, and the derived inverse and Burrows-Wheeler transform are the ones this permutation defines. The result does not depend on the algorithm, element width, or whether intermediate files are kept on disk or in RAM.",
 ["inputs","configurations"],"all texts (empty, single-symbol, periodic, Fibonacci, random, high-byte values), all algorithms and alphabets",
 "Tests run a few fixed text files; periodic and tiny texts and different memory layouts change the code path.",
 ["construct_sa.hpp","construct_sa_se.hpp","lib/construct_sa_se.cpp","lib/construct_sa.cpp","qsufsort.hpp","construct_bwt.hpp","construct_isa.hpp","lib/construct_config.cpp","construct.hpp","lib/construct_isa.cpp"],
 [("semi-external induced sorting","construct_sa_se.hpp"),("prefix doubling","qsufsort.hpp"),("divsufsort wrapper","construct_sa.hpp")],["SA, ISA and BWT files"])
p("C15","LCP arrays hold the exact common-prefix lengths for every algorithm and encoding",
 "For any text, every LCP construction algorithm yields at index i the length of the longest common prefix of the suffixes ranked i-1 and i (0 at index 0), and every LCP representation (plain, byte-wise, variable-length, wavelet-tree, and the ones embedded in suffix trees) reports these values at every index, including values beyond any byte-size or sampling threshold.",
 ["inputs","configurations"],"all texts, all algorithms, all representations",
 "Tests compare algorithms on a few files where long repeats, values over 255 and tiny texts are uncommon.",
 ["construct_lcp.hpp","construct_lcp_helper.hpp","lib/construct_lcp.cpp","lib/construct_lcp_helper.cpp","lcp.hpp","lcp_bitcompressed.hpp","lcp_byte.hpp","lcp_dac.hpp","lcp_vlc.hpp","lcp_wt.hpp","lcp_support_sada.hpp","lcp_support_tree.hpp","lcp_support_tree2.hpp"],
 [("Kasai/PHI/semi-external/BWT-based constructions","construct_lcp.hpp, lib/construct_lcp.cpp"),("escape coding","lcp_byte.hpp")],["LCP file, operator[]"])
p("C16","A compressed suffix array reports the exact suffix-array quantities",
 "For any text and any compressed suffix array type, alphabet strategy and sampling (density and strategy), the reported length, alphabet mapping and counts, and at every index the suffix array, its inverse, the successor and predecessor permutations, the Burrows-Wheeler symbol, the first-column symbol and the text equal those defined by the sorted suffixes of the text. Rank and select on the Burrows-Wheeler transform agree with scanning it, and iteration over each view yields the same values.",
 ["inputs","configurations"],"all texts, CSA types, sampling strategies and densities, byte and integer alphabets",
 "Tests use default densities and a few files; sampling remainders, tiny texts and sparse integer alphabets are not covered.",
 ["csa_wt.hpp","csa_sada.hpp","csa_bitcompressed.hpp","csa_sampling_strategy.hpp","csa_alphabet_strategy.hpp","suffix_array_helper.hpp","lib/csa_alphabet_strategy.cpp"],
 [("sampled SA/ISA plus LF/psi walking","csa_wt.hpp, csa_sada.hpp, csa_sampling_strategy.hpp"),("alphabet mapping","csa_alphabet_strategy.hpp")],["csa[i], isa, psi, lf, bwt, F, text, C, char2comp, comp2char"])
p("C17","Pattern search counts, locates and extracts exactly the occurrences in the text",
 "For any text, pattern and compressed index, counting returns the number of occurrences, locating returns exactly the set of starting positions, and extracting returns the text slice for any interval. Step-wise backward, forward and bidirectional search maintain exactly the suffix interval of the current pattern (empty when there is none), and the space of answers does not depend on index type or sampling.",
 ["inputs","configurations"],"all texts, all patterns (absent symbols, longer than text, whole text, empty), all index types",
 "Tests search a few patterns in sample files; absent symbols, boundary patterns and bidirectional steps are sparsely covered.",
 ["suffix_array_algorithm.hpp","suffix_tree_algorithm.hpp","csa_wt.hpp","csa_sada.hpp","csa_bitcompressed.hpp"],
 [("backward search","suffix_array_algorithm.hpp: backward_search, bidirectional_search, count, locate, extract")],["count, locate, extract, backward_search, forward_search, bidirectional_search"])
p("C18","Suffix-tree navigation agrees with the suffix tree of the text",
 "For any non-empty text and any compressed suffix tree type, the set of nodes reached from the root, and at every node the depth, node depth, parent, children in order, siblings, first/last/i-th leaf, subtree size, child by symbol, edge labels, lowest common ancestors, suffix links, Weiner links by text symbols, inverse-node numbering and degree are those of the suffix tree of the terminated text. Depth-first and bottom-up iteration visit every node in the specified order and multiplicity.",
 ["inputs","configurations"],"all texts, all tree types, all nodes and node pairs",
 "Tests run on a few files with sampled nodes; degenerate trees (unary texts, all-distinct) and all node pairs are not covered.",
 ["cst_sct3.hpp","cst_sada.hpp","cst_fully.hpp","cst_iterators.hpp","suffix_tree_helper.hpp","suffix_tree_algorithm.hpp","bp_support_sada.hpp","lcp_support_tree.hpp"],
 [("intervals over LCP with balanced parentheses","cst_sct3.hpp, cst_sada.hpp"),("sampled tree","cst_fully.hpp")],["node operations"])
p("C19","Succinct trees answer navigation queries by their definitions",
 "For every balanced-parentheses sequence and every support structure, matching open/close positions, enclosing pairs, excess, rank, select, range-minimum of excess, double-enclose and range-restricted enclose return what scanning the sequence gives, at every position where they are defined and a not-found value elsewhere. The level-order unary tree reports parent, children, degree, node numbering and counts of the tree it was built from.",
 ["inputs","configurations"],"all balanced sequences (deep, wide, random, block-boundary shapes), all supports and block parameters, all trees",
 "Tests use a few files; pioneers, block-boundary matches and deep nesting are not covered systematically.",
 ["bp_support_sada.hpp","bp_support_g.hpp","bp_support_gg.hpp","bp_support_algorithm.hpp","lib/bp_support_algorithm.cpp","louds_tree.hpp"],
 [("min-max tree over blocks","bp_support_sada.hpp"),("pioneer families","bp_support_g.hpp, bp_support_gg.hpp"),("level-order unary degree sequence","louds_tree.hpp")],["find_open, find_close, enclose, excess, rr_enclose, double_enclose, parent, child"])
p("C20","Range-minimum queries return the leftmost-optimal position for any interval",
 "For any sequence and any range-minimum (or maximum) structure, the answer for an interval l <= r is the position of an extreme element of that interval, with ties resolved in the structure's documented direction. This holds for all intervals, including singletons and the full range, without needing the original sequence where the structure claims not to.",
 ["inputs","configurations"],"all sequences (ties, monotone, constant), all intervals, min and max variants",
 "Tests check random sequences' intervals; ties and block-crossing intervals are rare.",
 ["rmq_support_sparse_table.hpp","rmq_succinct_sada.hpp","rmq_succinct_sct.hpp","rmq_support.hpp"],
 [("super-Cartesian tree as parentheses","rmq_succinct_sct.hpp, rmq_succinct_sada.hpp"),("sparse table","rmq_support_sparse_table.hpp")],["rmq(l,r)"])
p("C21","Two-dimensional point structures answer exactly over their points",
 "A weighted point grid (k2_treap) built from any set of points at distinct positions, in memory or from files, with any coordinate type, returns for any query rectangle exactly its points: counted, enumerated by non-increasing weight for top-k (the order of equal weights is free), and restricted to a weight interval for 3-sided queries; coordinates beyond the largest power of k that fits 64 bits are refused with an exception. An adjacency grid (k2_tree) built from any non-empty edge list, file pair or matrix over n nodes reports exactly the given edges for adjacency, neighbours, reverse neighbours and rectangle ranges; two grids over the same n compare equal exactly when their edge sets are equal. Copies, moves, swaps and reloads answer alike.",
 ["inputs","configurations"],"all point sets/edge sets, all rectangles (empty, degenerate, full), all arities",
 "Tests run random rectangles over a few files; degenerate rectangles, tiny or power-of-k-boundary grids are not covered.",
 ["k2_treap.hpp","k2_treap_helper.hpp","k2_treap_algorithm.hpp","k2_tree.hpp","k2_tree_helper.hpp"],
 [("level-wise k^2 decomposition","k2_treap.hpp, k2_tree.hpp"),("priority-ordered traversal","k2_treap_algorithm.hpp")],["top_k, range_3d, count, adj, neigh, reverse_neigh, range, operator=="])
p("C22","Set dictionaries, inverse permutations and sorted stacks behave as specified",
 "A static or dynamic successor dictionary over a universe reports for any history of insertions and erasures exactly the rank, select, predecessor and successor of the current set. An inverse-permutation structure returns the inverse at every index, and each compact sorted stack returns the same top, size and emptiness as a plain stack of strictly increasing (or non-decreasing, with the i-th multiplicity preserved) numbers for any history of pushes and pops, where the stack over [0..n] with repetitions holds at most n elements and numbers within 63 of 2^64 are not pushed to the integer stack.",
 ["histories","inputs"],"all sets and all histories of set/stack operations, all universe sizes",
 "Tests run one random history at fixed sizes; emptying, word-boundary tops and boundary universes are not covered.",
 ["nearest_neighbour_dictionary.hpp","nn_dict_dynamic.hpp","sorted_stack_support.hpp","sorted_multi_stack_support.hpp","sorted_int_stack.hpp","inv_perm_support.hpp"],
 [("hierarchical bitmap","nn_dict_dynamic.hpp"),("block-compressed stack","sorted_stack_support.hpp, sorted_multi_stack_support.hpp"),("back pointers on cycles","inv_perm_support.hpp")],["rank, select, prev, next, top, size"])
p("C23","Index construction is deterministic, cache-independent and leaves no stray files",
 "Building an index from a file, from memory, or through a cache directory (disk or RAM) gives the same index whatever intermediate results the cache already holds, also when several threads build at the same time, and identical bytes on repetition. When intermediate files are to be deleted, construction leaves no file behind which was not there before and deletes only files of its own cache; when they are kept, every registered cache entry names an existing file whose content is the announced intermediate array. The input file and files of others are never modified. A text which contains the terminator is refused, and the refusal leaves no file behind.",
 ["configurations","histories"],"all texts, index types, cache states (empty, partial, full), disk/RAM directories, delete/keep",
 "Tests construct with one configuration and never compare the directory before and after or reuse partial caches.",
 ["construct.hpp","config.hpp","lib/config.cpp","io.hpp","lib/io.cpp","construct_lcp.hpp","construct_bwt.hpp","util.hpp","lib/util.cpp"],
 [("keyed cache files","io.hpp: cache_file_exists, register_cache_file, load_from_cache, store_to_cache"),("cleanup","construct.hpp, config.hpp")],["directory listing, index bytes"])
p("C24","Reported sizes and structure trees account for exactly the bytes stored",
 "For any structure the reported in-bytes size equals the number of bytes its stored form takes, and the structure tree written alongside sums at every inner node to at least its children and at the root to that same number, identically in every output format offered. The memory monitor's event record is well-nested, time-ordered and reports a peak not below any recorded usage.",
 ["inputs","configurations"],"all structure kinds and contents; all nestings of monitored events and allocations",
 "Tests do not compare reported sizes or tree sums with stored bytes at all.",
 ["structure_tree.hpp","lib/structure_tree.cpp.cmake","io.hpp","memory_management.hpp","lib/memory_management.cpp","util.hpp"],
 [("counting null stream","io.hpp: size_in_bytes"),("tree aggregation","structure_tree.hpp, io.hpp: write_structure"),("event stack","memory_management.hpp: memory_monitor")],["size_in_bytes, write_structure, memory_monitor output"])
p("C25","The large-page allocator hands out disjoint, aligned, content-preserving blocks",
 "Under any history of allocate, reallocate and free requests, blocks handed out by the large-page allocator lie inside the reserved area, never overlap while live, are aligned for 64-bit access, keep their content until freed, and reallocation preserves the common prefix. Freed space becomes usable again: after freeing everything a request as large as was once satisfied succeeds without a larger reservation.",
 ["histories"],"all histories of allocation requests of all sizes",
 "No existing test exercises the allocator at all.",
 ["memory_management.hpp","lib/memory_management.cpp"],
 [("boundary-tag heap with splitting and coalescing","lib/memory_management.cpp: hugepage_allocator")],["returned addresses and block contents"],
 [("block list","boundary-tagged blocks over the reserved area","hugepage_allocator: m_base,m_top,m_first_block,m_free_large")])
p("C26","Constant queries and independent objects are safe from several threads at once",
 "Once an object has been built or loaded, any number of threads may at the same time call its const member functions and the free query functions that take it by const reference, copy from it or store it: no data race occurs and every call returns exactly what it returns when nothing else runs. Threads that meanwhile build, copy, store and load objects of their own (with their own names for stored files) obtain the same objects as when they run alone.",
 ["schedules","inputs"],"all schedules of threads querying one object of any class of the library, and of threads building objects of their own",
 "Existing tests are single-threaded: no schedule of two threads is ever executed.",
 ["csa_sada.hpp","csa_wt.hpp","wt_pc.hpp","bp_support_sada.hpp","rrr_vector_15.hpp","fast_cache.hpp","util.hpp","ram_fs.hpp","memory_management.hpp"],
 [("scratch space of queries","csa_sada.hpp: rank_bwt; csa_wt.hpp, bp_support_sada.hpp (fast_cache); wt_pc.hpp"),("process-wide state","util.hpp: id; ram_fs; memory_monitor; tables of the coders and of rrr")],["answers of concurrent const calls, objects built concurrently"])
import os
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write(json_lines)
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import os
for x in P:
    jsonschema.validate(x,s)
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print(x["id"],"missing",f)
