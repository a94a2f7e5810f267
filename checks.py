"""The checks: which driver, which trace specification, which design models decide a property."""
CHECKS = {}

def bv(need):
    return ["bv_impls.cpp#5"], ["-DBV_NEED=%d" % need]

BVMC = [dict(module="BitVecMC.tla", cfg="BitVecMC.cfg", cfg_thorough="BitVecMC_t.cfg", workers=2), dict(module="HugeMC.tla", cfg="HugeMC.cfg", cfg_thorough="HugeMC_t.cfg", workers=2)]
for pid, drv, need, ops in (("C03", "bv_access.cpp", 1, ["size", "access", "access_at", "get_int", "iter"]),
                            ("C04", "bv_rank.cpp", 2, ["rank", "rank_at"]),
                            ("C05", "bv_select.cpp", 4, ["select", "select_at"])):
    CHECKS[pid] = dict(drivers=[("bv_impls.cpp#5", ["-DBV_NEED=%d" % need]), drv, ("bv_huge.cpp", ["-DBV_NEED=%d" % need])], trace="BitVecTrace.tla", mc=BVMC, must_ops=ops + ["hsize", "haccess", "hint"])

WT = ["wt_impls.cpp#8"]
WTMC = [dict(module="WaveMC.tla", cfg="WaveMC.cfg", cfg_thorough="WaveMC_t.cfg", workers=2)]
CHECKS["C12"] = dict(drivers=WT + ["wt_point.cpp"], trace="SeqTrace.tla", mc=WTMC, must_ops=["meta", "access", "iter", "rank_at", "select_at", "invsel"])
CHECKS["C13"] = dict(drivers=WT + ["wt_range.cpp"], trace="SeqTrace.tla", mc=WTMC,
                     must_ops=["lex_count", "lex_smaller", "interval_symbols", "interval_symbols_lex", "range2d", "range2d_count", "quantile", "intersect", "intersect_lex",
                               "symbol_lte", "symbol_gte", "unique_range", "nodes", "nodes_lex"])

CHECKS["C06"] = dict(drivers=["civ_drv.cpp#3", "coder_drv.cpp"], trace="CodesTrace.tla", mc=[dict(module="CodesMC.tla", cfg="CodesMC.cfg", cfg_thorough="CodesMC_t.cfg", workers=2)],
                     must_ops=["enc", "sum", "dec", "whole", "meta", "all", "iter", "samples"],
                     assumptions=["2^64-1 is not given to vlc_vector (it rejects it with an exception)"])
CHECKS["C01"] = dict(drivers=["iv_drv.cpp#3"], trace="IntVecTrace.tla", mc=[dict(module="PackedMC.tla", cfg="PackedMC.cfg", cfg_thorough="PackedMC_t.cfg", workers=2)],
                     must_ops=["new", "resize", "width", "set", "getint", "arith", "assign", "swapel", "bitop", "flip", "copy", "move", "swap", "cmp", "iter", "walk", "fillval",
                               "id", "constbits", "mod", "compress", "expand", "count", "find", "reverse", "rotate", "sort", "all", "huge"],
                     assumptions=["get_int/set_int windows are at most 64 bits wide and inside the vector; for int_vector<8/16/32> at most as wide as value_type", "bit_compress, expand_width and width() are exercised on int_vector<0> only (as documented)", "contents of moved-from vectors are not specified"])
CHECKS["C02"] = dict(drivers=[("bits_v_portable.cpp", []), ("bits_v_sse42.cpp", ["-msse4.2", "-mpopcnt"]), ("bits_v_bmi2.cpp", ["-msse4.2", "-mpopcnt", "-mbmi2"]),
                              ("bits_v_tl.cpp", ["-DPOPCOUNT_TL"]), ("bits_v_noti.cpp", ["-UMODE_TI"]), "bits_drv.cpp"],
                     trace="BitsTrace.tla", mc=[dict(module="BitsMC.tla", cfg="BitsMC.cfg", cfg_thorough="BitsMC_t.cfg", workers=2)],
                     must_ops=["word", "field", "scan", "table", "wide", "shift", "wquery", "wstr"],
                     assumptions=["shift distances below the width of the integer", "select ranks, scans and unary reads only where the documented precondition (the bit exists) holds",
                                  "SSE4.2/BMI2 variants are run only where the processor has them"])
CHECKS["C07"] = dict(drivers=["buf_drv.cpp"], trace="BufTrace.tla", mc=[dict(module="BufferMC.tla", cfg="BufferMC.cfg", cfg_thorough="BufferMC_t.cfg", workers=3)],
                     gen=dict(module="BufferMC.tla", cfg="BufferGen.cfg", num=100, depth=45),
                     must_ops=["open", "write", "read", "arith", "copyel", "cmpel", "range", "walk", "setbuf", "reset", "close", "move", "swap", "file", "meta", "default", "huge"],
                     assumptions=["no two open buffers share a file", "a buffer opened for reading is given an existing file of its own format"])
CHECKS["C08"] = dict(drivers=["map_drv.cpp"], trace="MapTrace.tla", mc=[dict(module="MapperMC.tla", cfg="MapperMC.cfg", cfg_thorough="MapperMC_t.cfg", workers=2)],
                     gen=dict(module="MapperMC.tla", cfg="MapperGen.cfg", num=40, depth=35),
                     must_ops=["create", "open", "show", "set", "setint", "push", "resize", "width", "flip", "read", "cmp", "file", "close", "move", "absent", "huge"],
                     assumptions=["the contents of elements gained by resize are not specified", "no two mappers write the same file at once", "the mapped file is on disk (in-RAM names cannot be mapped)"])
CHECKS["C09"] = dict(drivers=["file_drv.cpp"], trace="FileTrace.tla",
                     mc=[dict(module="FileMC.tla", cfg="FileMC.cfg", cfg_thorough="FileMC_t.cfg", workers=2), dict(module="NameMapMC.tla", cfg="NameMapMC.cfg", cfg_thorough="NameMapMC_t.cfg", workers=2), dict(module="HugeFileMC.tla", cfg="HugeFileMC.cfg", cfg_thorough="HugeFileMC_t.cfg", workers=2)],
                     gen=dict(module="FileMC.tla", cfg="FileGen.cfg", num=60, depth=45),
                     variants=[("std", []), ("tsan", ["-DONLY_THREADS", "-fsanitize=thread"])], ldflags=[],
                     must_ops=["openw", "openr", "write", "read", "seek", "tell", "clear", "isopen", "close", "exists", "size", "whole", "remove", "rename", "cross", "names", "store", "load", "thread", "hopen", "hread", "htell", "hseek", "hwrite", "hsize"],
                     assumptions=["a file is not removed or renamed while a stream has it open, and has one writing stream at a time", "a reading stream is repositioned after another stream changed its file",
                                  "threads use distinct names", "in append mode the position is not asked between a seek and the next write"])
CHECKS["C14"] = dict(drivers=["sa_drv.cpp"], trace="SaTrace.tla", mc=[dict(module="SortMC.tla", cfg="SortMC.cfg", cfg_thorough="SortMC_t.cfg", workers=2)],
                     must_ops=["text", "sa", "isa", "bwt", "text_cached", "bigtext"], assumptions=[])
CHECKS["C15"] = dict(drivers=["lcp_drv.cpp#4"], trace="SaTrace.tla", mc=[dict(module="SortMC.tla", cfg="SortMC.cfg", cfg_thorough="SortMC_t.cfg", workers=2)],
                     must_ops=["text", "lcp", "lcpmeta", "bigtext"], assumptions=[])

CHECKS["C16"] = dict(drivers=["csa_drv.cpp#4"], trace="CsaTrace.tla", mc=[dict(module="SortMC.tla", cfg="SortMC.cfg", cfg_thorough="SortMC_t.cfg", workers=2)],
                     must_ops=["text", "sa", "isa", "psi", "lf", "bwt", "first", "text_cached", "csameta", "counts", "maps", "bwtrank", "bwtselect", "nothing", "bigtext"], assumptions=["texts of fewer than 500000 symbols"])
CHECKS["C17"] = dict(drivers=["search_drv.cpp#3"], trace="SearchTrace.tla", mc=[dict(module="SortMC.tla", cfg="SortMC.cfg", cfg_thorough="SortMC_t.cfg", workers=2)],
                     must_ops=["text", "reverse", "count", "interval", "locate", "narrow", "bstep", "extract", "cstfwd", "bidi"], assumptions=["patterns do not contain the terminator symbol", "texts of fewer than 10000 symbols"])
CHECKS["C18"] = dict(drivers=["cst_drv.cpp#4"], trace="CstTrace.tla", mc=[dict(module="CstMC.tla", cfg="CstMC.cfg", cfg_thorough="CstMC_t.cfg", workers=2)],
                     must_ops=["text", "tree", "shape", "label", "child", "wl", "lca", "slk", "anc", "leaf", "nodes", "lcp", "ids", "dfs", "bottomup", "bfs"],
                     assumptions=["texts of at least one and fewer than 10000 symbols (besides the terminator)", "Weiner links by the terminator are not asked"])

CHECKS["C11"] = dict(drivers=[("life_drv.cpp#8", ["-DMAXH=10"])], trace="LifeTrace.tla", mc=[dict(module="LifeMC.tla", cfg="LifeMC.cfg", cfg_thorough="LifeMC_t.cfg", workers=2)],
                     gen=dict(module="LifeMC.tla", cfg="CopyGen.cfg", num=60, num_thorough=60, depth=40),
                     must_ops=["kind", "value", "new", "make", "copyctor", "movector", "copyassign", "moveassign", "swap", "destroy"],
                     assumptions=["a moved-from object is only assigned to, rebuilt, loaded or destroyed", "four contents per class"])
CHECKS["C10"] = dict(drivers=[("life_drv.cpp#8", ["-DMAXH=8"])], trace="LifeTrace.tla", mc=[dict(module="LifeMC.tla", cfg="LifeMC.cfg", cfg_thorough="LifeMC_t.cfg", workers=2)],
                     gen=dict(module="LifeMC.tla", cfg="StoreGen.cfg", num=50, num_thorough=50, depth=44),
                     must_ops=["kind", "value", "store", "load", "fstore", "fload", "alien", "rewind", "clear", "copyassign", "make"],
                     assumptions=["four contents per class"])
CHECKS["C24"] = dict(drivers=["size_drv.cpp#8", "mon_drv.cpp"], trace="AccountTrace.tla",
                     mc=[dict(module="MonitorMC.tla", cfg="MonitorMC.cfg", cfg_thorough="MonitorMC_t.cfg", workers=2), dict(module="MonitorMC.tla", cfg="MonitorMC_all.cfg", workers=2), dict(module="SizeMC.tla", cfg="SizeMC.cfg", cfg_thorough="SizeMC_t.cfg", workers=2)],
                     gen=dict(module="MonitorMC.tla", cfg="MonGen.cfg", num=60, num_thorough=300, depth=28),
                     must_ops=["kind", "size", "many", "begin", "end", "change", "late", "log", "threads"],
                     assumptions=["the system clock does not step backwards during a run"])
CHECKS["C25"] = dict(drivers=["heap_drv.cpp"], trace="HeapTrace.tla", mc=[dict(module="HeapMC.tla", cfg="HeapMC.cfg", cfg_thorough="HeapMC_t.cfg", workers=2)],
                     gen=dict(module="HeapMC.tla", cfg="HeapGen.cfg", num=100, num_thorough=500, depth=84),
                     must_ops=["heap", "alloc", "realloc", "free", "objects"],
                     assumptions=["ordinary pages stand in for large pages (mmap with MAP_HUGETLB is answered by the driver)", "a block's owner writes only inside the block"])
CHECKS["C19"] = dict(drivers=["tree_drv.cpp#4"], trace="TreeTrace.tla", mc=[dict(module="BpMC.tla", cfg="BpMC.cfg", cfg_thorough="BpMC_t.cfg", workers=2)],
                     must_ops=["seq", "size", "excess", "rank", "select", "find_close", "find_open", "enclose", "preceding", "level_anc", "rmq", "rmq_open", "pairs", "tree", "louds"],
                     assumptions=["the position of a smallest excess is not prescribed where several positions have it", "rr_enclose and double_enclose are asked for disjoint pairs, as documented"])
CHECKS["C20"] = dict(drivers=["rmq_drv.cpp#4"], trace="RmqTrace.tla", mc=[dict(module="RmqMC.tla", cfg="RmqMC.cfg", cfg_thorough="RmqMC_t.cfg", workers=2)],
                     must_ops=["array", "size", "rmq"], assumptions=[])
CHECKS["C22"] = dict(drivers=["set_drv.cpp"], trace="SetTrace.tla",
                     mc=[dict(module="StackMC.tla", cfg="StackMC.cfg", cfg_thorough="StackMC_t.cfg", workers=2), dict(module="NnMC.tla", cfg="NnMC.cfg", cfg_thorough="NnMC_t.cfg", workers=2), dict(module="InvMC.tla", cfg="InvMC.cfg", cfg_thorough="InvMC_t.cfg", workers=2)],
                     gen=[dict(module="StackMC.tla", cfg="StackGen.cfg", num=60, num_thorough=400, depth=122), dict(module="NnMC.tla", cfg="NnGen.cfg", num=30, num_thorough=150, depth=152)],
                     must_ops=["stack", "push", "pop", "via", "drain", "dynamic", "ins", "del", "ask", "all", "setvia", "bits", "dict", "perm", "inverse"],
                     assumptions=["the stack with duplicates holds at most n elements (2n bits are documented)", "numbers near 2^64 are not pushed"])
CHECKS["C21"] = dict(drivers=["grid_drv.cpp#3"], trace="GridTrace.tla", ldflags=["-Wl,--allow-multiple-definition"],
                     mc=[dict(module="K2MC.tla", cfg="K2MC.cfg", cfg_thorough="K2MC_t.cfg", workers=2), dict(module="K2MC.tla", cfg="K3MC.cfg", workers=2)],
                     must_ops=["points", "size", "top", "first", "range3d", "count", "graph", "adj", "neigh", "reverse", "range", "equal"],
                     assumptions=["the points of a weighted grid are at different positions", "the order among points of equal weight and the order of neighbours are not prescribed"])
_RF = "_ZN4sdsl6ram_fs"
_STR = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
CHECKS["C23"] = dict(drivers=["cache_drv.cpp#3", "cache_ram.cpp"], trace="CacheTrace.tla",
                     variants=[("std", ["-DHAVE_CXA_DEMANGLE"]), ("tsan", ["-DONLY_THREADS", "-fsanitize=thread"])],
                     ldflags=["-Wl,--allow-multiple-definition", "-Wl,--wrap=" + _RF + "5storeERK" + _STR + "St6vectorIcSaIcEE",
                              "-Wl,--wrap=" + _RF + "7contentERK" + _STR, "-Wl,--wrap=" + _RF + "6renameE" + _STR + "S6_"],
                     mc=[dict(module="CacheMC.tla", cfg="CacheMC.cfg", workers=2)],
                     gen=dict(module="CacheMC.tla", cfg="CacheGen.cfg", num=90, num_thorough=700, depth=18),
                     must_ops=["text", "build", "entry", "object", "refuse", "dir"],
                     assumptions=["nobody else changes the files of a cache while an index is built through it"])

CHECKS["C26"] = dict(drivers=["query_drv.cpp#8"], trace="QueryTrace.tla", variants=[("tsan", ["-fsanitize=thread"])], ldflags=["-Wl,--wrap=realloc", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc"],
                     mc=[dict(module="QueryMC.tla", cfg="QueryMC.cfg", cfg_thorough="QueryMC_t.cfg", workers=2),
                         dict(module="QueryMC.tla", cfg="QueryBad.cfg", workers=1, expect="SameAsAlone"),
                         dict(module="QueryMC.tla", cfg="QueryBadName.cfg", workers=1, expect="SameAsAlone")],
                     must_ops=["kind", "share", "alone", "call", "ret"],
                     assumptions=["no thread changes an object that another one uses", "stored files and cache ids of the threads differ"])
