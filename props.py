"""What decides each property: harnesses, modes, variants and amounts."""

CLANG = ["clang", "-g", "-O1", "-fno-omit-frame-pointer"]
# pointer-overflow is off: the code forms "NULL + 0" in places, which no compiler exploits in C.
UB = "-fsanitize=undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all".split()

COUNTED = ("memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strncmp", "strchr", "strncpy")

VARIANTS = {
    "asan": {"cc": CLANG + ["-fsanitize=address"] + UB},
    "plain": {"cc": ["gcc", "-g", "-O2"]},
    # As the project's own debug build: an optimiser removes some defects (races on
    # variables which it keeps in registers, uses of uninitialised locals).
    # And with plain char unsigned, as it is on ARM or PowerPC.
    "plain0": {"cc": ["gcc", "-g", "-O0", "-funsigned-char"]},
    "tsan0": {"cc": ["clang", "-g", "-O0", "-fsanitize=thread", "-DMON_NOWRAP"], "nowrap": True},
    "msan": {"cc": CLANG + ["-fsanitize=memory", "-fsanitize-memory-track-origins"]},
    "tsan": {"cc": CLANG + ["-fsanitize=thread", "-DMON_NOWRAP"], "nowrap": True},
    # A 32-bit program, over a small C library of our own (harness/ilp32), as there
    # is none here. Undefined behaviour traps. Skipped if it cannot be built or run.
    "ilp32": {"cc": ["clang", "-m32", "-march=pentium4", "-g", "-O1", "-fno-omit-frame-pointer", "-fno-stack-protector",
                     "-fno-pic", "-U_FORTIFY_SOURCE"] +
                    UB[:2] + ["-fno-sanitize=alignment", "-fsanitize-trap=all", "-nostdlib", "-static"],
              "optional": True},
    # Edges and bytes counted (h_cost.c).
    # (Optimised, so that strlen(s) == 0 is what it should be.)
    "cost": {"cc": ["clang", "-g", "-O1", "-fsanitize-coverage=trace-pc"] + ["-Wl,--wrap=" + f for f in COUNTED]},
    "fuzz": {"cc": CLANG + ["-DMON_FUZZ", "-fsanitize=fuzzer,address"] + UB},
}

HARNESSES = {
    "h_buffer": {"inc": ["data"], "src": ["data/buffer.c"]},
    "h_htable": {"inc": ["data"], "src": ["data/htable.c"]},
    "h_rbtree": {"inc": ["data"], "src": ["data/rbtree.c"]},
    "h_list": {"inc": ["data"], "src": []},
    "h_hash": {"inc": ["hash"], "src": ["hash/crc32.c", "hash/fnv1a.c"]},
    "h_mem": {"inc": ["mem"], "src": ["mem/memchunk.c"], "smoke": "h_mem_smoke"},
    "h_defs": {"inc": ["misc"], "src": [], "own_src": ["defs_kept.c", "defs_partly.c", "defs_partly2.c"], "smoke": "h_defs_smoke"},
    "h_cmdline": {"inc": ["misc"], "src": ["misc/cmdline.c"]},
    "h_value": {"inc": ["data"], "src": ["data/value.c"],
                "flags_asan": ["-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all"]},
    "h_memstream": {"inc": ["win32"], "src": ["win32/memstream.c"], "own_inc": ["winshim"],
                    # The module's OFFSETOF is the classic ((T*)0)->member.
                    "flags_asan": ["-fno-sanitize=null,object-size"],
                    "flags_fuzz": ["-fno-sanitize=null,object-size"],
                    "flags_ilp32": ["-fno-sanitize=null,object-size"]},
    "h_threads": {"inc": ["data", "encode", "hash", "mem", "misc"],
                  "src": ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c",
                          "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"]},
    "h_cost": {"inc": ["data", "encode", "hash", "mem", "misc"],
               "src": ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c",
                       "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"]},
    "h_cpp": {"inc": ["data", "encode", "hash", "mem", "misc"], "own_src": ["h_cpp_user.cpp"], "smoke": "h_cpp_smoke",
              "flags_asan": ["-fno-sanitize=vptr"], "flags_plain0": ["-std=gnu++98"],
              "src": ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c",
                      "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"]},
    "h_alone": {"inc": ["data", "encode", "hash", "mem", "misc"], "own_inc": ["alone"], "smoke": "h_cpp_smoke",
                "own_src": ["alone/alone_%s.%s" % (h, e) for e in ("c", "cpp") for h in (
                    "buffer", "htable", "list", "rbtree", "value", "base64", "hex", "crc32", "fnv1a", "malloca",
                    "memchunk", "cmdline", "defs", "order")],
                "flags_asan": ["-fno-sanitize=vptr"], "flags_plain0": ["-std=gnu++98"],
                "src": ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c",
                        "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"]},
    "h_streamcpp": {"inc": ["win32"], "src": ["win32/memstream.c"], "own_inc": ["winshim"], "smoke": "h_streamcpp_smoke",
                    "own_src": ["streamcpp_c.c", "streamcpp_user.cpp"],
                    "flags_asan": ["-fno-sanitize=null,object-size,vptr,function"], "libs": ["-lstdc++"], "flags_plain0": ["-std=gnu++98"]},
    "h_codec": {"inc": ["encode"], "src": ["encode/base64.c", "encode/hex.c"]},
}


# What runs as a 32-bit program, too (in the thorough tier; not what needs
# threads or gigabytes).
ILP32 = ("h_buffer", "h_htable", "h_rbtree", "h_list", "h_value", "h_mem", "h_cmdline", "h_codec", "h_hash", "h_defs",
         "h_memstream")
NOT_ILP32 = ("huge", "hugecrc", "hugefnv", "hugestring", "arrayhuge", "chunkhuge", "bigstream", "refsmt")


def run(h, m, v, q, t, **kw):
    """Harness, mode, variants, number of episodes in the quick and thorough tiers."""
    d = {"h": h, "m": m, "v": v.split(), "q": q, "t": t}
    if "tv" in kw:
        kw["tv"] = kw["tv"].split()
    d.update(kw)
    return d


PROPS = {}

PROPS["C01"] = {
    "technique": "runtime monitoring: model-based online oracle under ASan/UBSan/MSan with an instrumented heap",
    "rule": "Random edit histories of a buffer (sizes biased to powers of two) and a systematic sweep of "
            "(size, offset, length, capacity) cases; a case is one operation checked against a byte-sequence "
            "model, non-trivial if it is not a no-op, distinct by (operation, size, offset, length, capacity).",
    "runs": [run("h_buffer", "seq", "asan plain", 2400, 60000, tv="msan fuzz"),
             run("h_buffer", "sweep", "asan plain", 600, 6000, tv="msan"),
             run("h_buffer", "large", "asan plain", 80, 1600),
             run("h_buffer", "huge", "plain", 2, 4, heavy=True, shards=1, cpu=100)],
}
PROPS["C02"] = {
    "technique": "runtime monitoring: LIFO oracle over tagged items under ASan/UBSan",
    "rule": "Random push/pop/peek histories of tagged items of random sizes; distinct by (operation, depth, size, capacity).",
    "runs": [run("h_buffer", "stack", "asan plain", 2400, 60000, tv="msan fuzz"),
             run("h_buffer", "stackdeep", "asan plain", 32, 800)],
}
PROPS["C03"] = {
    "technique": "runtime monitoring: ideal-array oracle for each of nine generated types under ASan/UBSan",
    "rule": "Random histories over one of the nine element types per episode with full-range values; distinct by "
            "(type, operation, size, index, count).",
    "runs": [run("h_buffer", "array", "asan plain", 2400, 60000, tv="msan fuzz")],
}
PROPS["C04"] = {
    "technique": "runtime monitoring: allocation-trace monitor on an instrumented heap",
    "rule": "Histories of reserves, additions and removals watched at the heap boundary; distinct by "
            "(operation, size, capacity, requested).",
    "runs": [run("h_buffer", "capacity", "asan plain", 700, 40000)],
}
PROPS["C05"] = {
    "technique": "runtime monitoring: map oracle over tagged nodes under ASan/UBSan, hostile hash functions",
    "rule": "Random histories of insert/lookup/remove with hash functions from constant to uniform, over table sizes "
            "crossing the growth and shrink points; distinct by (operation, hash kind, node count, result).",
    "runs": [run("h_htable", "map", "asan plain", 1600, 30000, tv="msan fuzz"),
             run("h_htable", "edge", "asan plain", 400, 8000, tv="msan"),
             run("h_htable", "unsafe", "asan plain", 1200, 20000),
             run("h_htable", "big", "asan plain", 8, 128, cpu=120),
             run("h_htable", "longchain", "asan plain", 24, 400, cpu=120)],
}
PROPS["C06"] = {
    "technique": "runtime monitoring: comparator-call counting and an instrumented heap, bounds checked online",
    "rule": "Tables grown and shrunk through various histories with a uniform hash; distinct by (phase, node count).",
    "runs": [run("h_htable", "cost", "asan plain", 500, 6000),
             run("h_htable", "costhuge", "plain", 1, 12, cpu=200),
             run("h_htable", "costbig", "plain", 16, 200)],
}
PROPS["C07"] = {
    "technique": "runtime monitoring: destructor-call accounting with nodes freed under ASan, instrumented heap",
    "rule": "Tables left in a random state and torn down, then reused; distinct by (node count, history hash, destructor kind).",
    "runs": [run("h_htable", "fini", "asan plain", 3000, 60000, tv="msan"),
             run("h_htable", "big", "asan plain", 8, 128, cpu=120),
             run("h_htable", "longchain", "asan plain", 24, 400, cpu=120)],
}
PROPS["C08"] = {
    "technique": "runtime monitoring: ordered-set oracle over tagged nodes under ASan/UBSan, hostile comparators",
    "rule": "Random and structured histories of insert/lookup/remove; distinct by (operation, tree content hash).",
    "runs": [run("h_rbtree", "set", "asan plain", 3000, 60000, tv="msan fuzz"),
             run("h_rbtree", "small", "asan plain", 3000, 60000),
             run("h_rbtree", "deep", "asan plain", 2, 64, cpu=120)],
}
PROPS["C09"] = {
    "technique": "runtime monitoring: tree-invariant checker after each operation and comparator-call counting",
    "rule": "Sorted, alternating, random and adversarial histories; distinct by (operation, tree content hash).",
    "runs": [run("h_rbtree", "balance", "asan plain", 1600, 20000),
             run("h_rbtree", "small", "asan plain", 3000, 60000),
             run("h_rbtree", "balancebig", "plain", 16, 200),
             run("h_rbtree", "deep", "asan plain", 2, 64, cpu=120)],
}
PROPS["C10"] = {
    "technique": "runtime monitoring: cursor-position oracle over a sorted model under ASan/UBSan",
    "rule": "Random walks of cursors from every kind of start in trees of random shapes; distinct by (tree content, start, step).",
    "runs": [run("h_rbtree", "cursor", "asan plain", 3000, 60000, tv="msan fuzz"),
             run("h_rbtree", "deep", "asan plain", 2, 64, cpu=120)],
}
PROPS["C11"] = {
    "technique": "runtime monitoring: exactly-once accounting with each node freed (poisoned by ASan) as it is handed out",
    "rule": "Trees of random shapes destroyed step by step, then reused; distinct by tree content hash.",
    "runs": [run("h_rbtree", "fini", "asan plain", 3000, 60000, tv="msan"),
             run("h_rbtree", "deep", "asan plain", 2, 64, cpu=120)],
}
PROPS["C12"] = {
    "technique": "runtime monitoring: sequence oracle with a full walk both ways after every operation, under ASan/UBSan",
    "rule": "Random histories over several lists; distinct by (operation, position, list lengths).",
    "runs": [run("h_list", "list", "asan plain", 20000, 400000, tv="msan fuzz")],
}
PROPS["C13"] = {
    "technique": "runtime monitoring: sequence oracle with a full walk after every operation, under ASan/UBSan",
    "rule": "Random histories over several lists; distinct by (operation, position, list lengths).",
    "runs": [run("h_list", "slist", "asan plain", 20000, 400000, tv="msan fuzz"),
             run("h_list", "qlist", "asan plain", 20000, 400000, tv="msan fuzz")],
}
PROPS["C24"] = {
    "technique": "runtime monitoring: independent bitwise encoder as the oracle, exact-size blocks under ASan/UBSan",
    "rule": "All one- and two-byte inputs in slices, random longer ones, nine alphabets, eight output sizes each; "
            "distinct by (input, options).",
    "runs": [run("h_codec", "b64enc", "asan plain", 6000, 100000, tv="msan fuzz"),
             run("h_codec", "b64enclarge", "asan plain", 64, 2000)],
}
PROPS["C25"] = {
    "technique": "runtime monitoring: independent decoder as the oracle, exact-size blocks under ASan/UBSan",
    "rule": "Valid encodings, every byte value at every position of short texts, mutated and garbage texts; distinct by "
            "(text, options).",
    "runs": [run("h_codec", "b64dec", "asan plain", 4000, 60000, tv="msan fuzz"),
             run("h_codec", "b64declarge", "asan plain", 64, 2000)],
}
PROPS["C26"] = {
    "technique": "runtime monitoring: independent encoder as the oracle, exact-size blocks under ASan/UBSan",
    "rule": "All one- and two-byte inputs in slices, random longer ones, seven output sizes each; distinct by (input, case).",
    "runs": [run("h_codec", "hexenc", "asan plain", 6000, 100000, tv="msan fuzz"),
             run("h_codec", "hexenclarge", "asan plain", 64, 2000)],
}
PROPS["C27"] = {
    "technique": "runtime monitoring: independent decoder as the oracle, exact-size blocks under ASan/UBSan",
    "rule": "All two-character texts, random valid texts and mutations of them; distinct by text.",
    "runs": [run("h_codec", "hexdec", "asan plain", 5120, 100000, tv="msan fuzz"),
             run("h_codec", "hexdeclarge", "asan plain", 64, 2000)],
}
PROPS["C38"] = {
    "technique": "runtime monitoring with allocation-fault injection: k-th allocation of each operation fails",
    "rule": "Each operation of a random history is run with its k-th allocation failing (k = 1..); distinct by "
            "(operation, size, capacity, k). Only operations in which a fault fired are non-trivial.",
    "runs": [run("h_buffer", "fault", "asan plain", 2000, 40000),
             run("h_buffer", "fault2", "asan plain", 1200, 20000)],
}
PROPS["C43"] = {
    "technique": "runtime monitoring: extreme-size requests with watched heap requests under UBSan",
    "rule": "Requests with sizes around the limits of the size types; distinct by (operation, size, object state).",
    "runs": [run("h_buffer", "extreme", "asan plain", 1600, 20000),
             run("h_codec", "extreme", "asan plain", 1600, 20000),
             run("h_codec", "huge", "plain", 2, 2, cpu=200),
             run("h_mem", "chunkextreme", "asan plain", 4000, 40000),
             run("h_mem", "mallocaextreme", "asan plain", 2000, 20000),
             run("h_buffer", "huge", "plain", 8, 40, heavy=True, shards=2, cpu=200)],
}
PROPS["C39"] = {
    "technique": "runtime monitoring with allocation-fault injection: the k-th allocation of each operation fails",
    "rule": "Each operation of a random history near growth and shrink points is run with its k-th allocation failing; "
            "distinct by (operation, node count, k). Only operations in which a fault fired are non-trivial.",
    "runs": [run("h_htable", "fault", "asan plain", 1200, 20000)],
}
PROPS["C28"] = {
    "technique": "runtime monitoring: bitwise definition as the oracle, exact-size blocks under ASan; multi-GiB data",
    "rule": "All one- and two-byte inputs and all lengths below 600 in slices, at varied alignments, random longer data, "
            "and data beyond 2 and 4 GiB; distinct by (data, alignment).",
    "runs": [run("h_hash", "crc", "asan plain", 6000, 100000, tv="msan"),
             run("h_hash", "hugecrc", "plain", 2, 8, cpu=80)],
}
PROPS["C29"] = {
    "technique": "runtime monitoring: definition as the oracle, exact-size blocks under ASan; multi-GiB data",
    "rule": "Short inputs in slices, all lengths below 600, random longer data, random bases, random splits into pieces, "
            "and data beyond 2 and 4 GiB; distinct by (data, bases).",
    "runs": [run("h_hash", "fnv", "asan plain", 6000, 100000, tv="msan"),
             run("h_hash", "hugefnv", "plain", 4, 16, cpu=80)],
}
PROPS["C30"] = {
    "technique": "runtime monitoring: interval and content monitor of all blocks over an instrumented heap, under ASan",
    "rule": "Random allocation histories with sizes around the quarter, the whole and the remainder of the block size; "
            "distinct by (block size, size, position).",
    "runs": [run("h_mem", "chunk", "asan plain", 4000, 100000, tv="msan fuzz"),
             run("h_mem", "chunkhuge", "plain", 4, 40)],
}
PROPS["C31"] = {
    "technique": "runtime monitoring: heap-call counting and live-block accounting on an instrumented heap",
    "rule": "Streams of small and mixed pieces, torn down and reused; distinct by (block size, size, position).",
    "runs": [run("h_mem", "batch", "asan plain", 6000, 100000)],
}
PROPS["C32"] = {
    "technique": "runtime monitoring: instrumented heap tells heap from stack, ASan watches both",
    "rule": "Sizes around thresholds, several live blocks, operator expressions as arguments, caller's variable names; "
            "distinct by (size, threshold).",
    "runs": [run("h_mem", "malloca", "asan plain", 8000, 100000, tv="msan"),
             run("h_mem", "mallocaextreme", "asan plain", 800, 10000)],
}
PROPS["C35"] = {
    "technique": "runtime monitoring: results of macro expansions compared online with plainly written arithmetic, under UBSan",
    "rule": "Extreme and random operands of ten types, twenty operator forms as arguments, embeddings in larger "
            "expressions, members of several layouts; distinct by operands.",
    "runs": [run("h_defs", "macros", "asan plain", 4000, 200000)],
}
PROPS["C33"] = {
    "technique": "runtime monitoring: the callback sequence checked online against an independent parser, under ASan/UBSan",
    "rule": "Random option tables and argument vectors derived from them (near misses, prefixes, groups, missing and bogus "
            "arguments, names of up to 600 characters; up to 70000 arguments or options), nested parses from the callback; distinct by (table, arguments).",
    "runs": [run("h_cmdline", "parse", "asan plain", 24000, 400000, tv="msan fuzz"),
             run("h_cmdline", "many", "asan plain", 16, 160)],
}
PROPS["C34"] = {
    "technique": "runtime monitoring: callback-call accounting with an abort at every possible call, under ASan/UBSan",
    "rule": "Random command lines, aborted at each call of the callback in turn; distinct by (table, arguments, abort point).",
    "runs": [run("h_cmdline", "abort", "asan plain", 30000, 400000, tv="msan"),
             run("h_cmdline", "many", "asan plain", 16, 160)],
}
PROPS["C14"] = {
    "technique": "runtime monitoring: getters compared online with exact (wide) arithmetic, under UBSan incl. float-cast-overflow",
    "rule": "Extreme, boundary and random numbers of all scalar types (random bit patterns, halves, neighbours of limits), "
            "stored at unaligned places; every getter whose type can hold the number; distinct by number and type.",
    "runs": [run("h_value", "scalar", "asan plain", 20000, 400000, tv="msan fuzz")],
}
PROPS["C15"] = {
    "technique": "runtime monitoring: answers compared online with exact (wide) arithmetic, under UBSan incl. float-cast-overflow",
    "rule": "Extreme, boundary and random values of all types against all types; distinct by value and type.",
    "runs": [run("h_value", "compat", "asan plain", 20000, 400000, tv="msan fuzz")],
}
PROPS["C16"] = {
    "technique": "runtime monitoring: content oracle with exact-size sources destroyed after the call, under ASan; multi-GiB strings",
    "rule": "All lengths below 400, boundaries of the length encoding, random lengths to 40000, around 2^21, and single "
            "strings up to beyond 2^31 (thorough: beyond 2^32) bytes; random content; distinct by content.",
    "runs": [run("h_value", "string", "asan plain", 6000, 100000, tv="msan fuzz"),
             run("h_value", "hugestring", "plain", 4, 9, heavy=True, shards=1, cpu=200)],
}
PROPS["C17"] = {
    "technique": "runtime monitoring: ideal-sequence oracle with full comparison after operations, under ASan/UBSan with an always-moving realloc",
    "rule": "Random histories of array operations (extreme and out-of-range indexes included) with members of all kinds; "
            "distinct by (content, operation, index, count).",
    "runs": [run("h_value", "array", "asan plain", 3000, 60000, tv="msan fuzz"),
             run("h_value", "arraybig", "asan plain", 16, 400),
             run("h_value", "arrayhuge", "plain", 1, 2, heavy=True, shards=1, cpu=80)],
}
PROPS["C18"] = {
    "technique": "runtime monitoring: sorted-map oracle with full comparison after operations, under ASan/UBSan",
    "rule": "Random histories of dictionary operations with hostile key sets (zero bytes, prefixes, empty, long, high bytes), "
            "five comparators; stopped walks, listings into buffers of any size; distinct by (content, operation, key).",
    "runs": [run("h_value", "dict", "asan plain", 1600, 40000, tv="msan fuzz"),
             run("h_value", "dictfar", "asan plain", 80, 2000),
             run("h_value", "deep", "asan plain", 4, 64, cpu=120)],
}
PROPS["C19"] = {
    "technique": "runtime monitoring: insertion-order oracle with full comparison after operations, under ASan/UBSan",
    "rule": "Random histories biased to removal of the first and the last added keys and to re-addition; distinct by "
            "(content, operation, key).",
    "runs": [run("h_value", "order", "asan plain", 1600, 40000, tv="msan fuzz"),
             run("h_value", "deep", "asan plain", 4, 64, cpu=120)],
}
PROPS["C20"] = {
    "technique": "runtime monitoring: tree-invariant checker after operations and comparator-call counting",
    "rule": "Sorted, reverse, alternating, inside-out and random additions and removals; distinct by history.",
    "runs": [run("h_value", "balance", "asan plain", 4000, 60000),
             run("h_value", "balancebig", "plain", 8, 100),
             run("h_value", "deep", "asan plain", 4, 64, cpu=120)],
}
PROPS["C21"] = {
    "technique": "runtime monitoring: stepwise navigation as the oracle, exact-size path texts under ASan/UBSan",
    "rule": "Random trees; paths following them with near misses, negative, signed, zero-padded, overflowing and malformed "
            "indexes, redundant slashes, and mutated texts; distinct by (tree, text).",
    "runs": [run("h_value", "path", "asan plain", 5000, 100000, tv="msan fuzz"),
             run("h_value", "pathbig", "asan plain", 64, 2000)],
}
PROPS["C22"] = {
    "technique": "runtime monitoring: model tree with full comparison after each building, under ASan/UBSan",
    "rule": "Sequences of buildings (existing, missing, appending, unfit, out of range) mixed with other operations on random "
            "trees; distinct by (tree, text).",
    "runs": [run("h_value", "build", "asan plain", 4000, 60000, tv="msan fuzz"),
             run("h_value", "buildbig", "asan plain", 64, 2000)],
}
PROPS["C23"] = {
    "technique": "runtime monitoring: heap-block accounting per member on an instrumented heap, ASan",
    "rule": "Random histories on nested trees; after each operation the number of live heap blocks is compared with what the "
            "members need (calibrated one by one at start); distinct by (tree, operation).",
    "runs": [run("h_value", "own", "asan plain", 3000, 60000, tv="msan"),
             run("h_value", "arraybig", "asan plain", 8, 64, cpu=120),
             run("h_value", "deep", "asan plain", 4, 64, cpu=120)],
}
PROPS["C40"] = {
    "technique": "runtime monitoring with allocation-fault injection: each allocation of each operation fails in turn",
    "rule": "Every operation of random histories on nested trees is run with its 1st, 2nd, ... allocation failing (once or "
            "for all the rest) until no fault fires; distinct by (operation, position, k, tree size). Only cases in which a "
            "fault fired count.",
    "runs": [run("h_value", "fault", "asan plain", 3000, 60000)],
}
PROPS["C36"] = {
    "technique": "runtime monitoring: model-stream oracle under ASan/UBSan/MSan, over stand-ins of the Windows headers",
    "rule": "Random histories of reads, seeks (offsets of any magnitude), copies into good, short and failing streams, "
            "clones and refused operations on several streams of exact-size data; position and size near 2^32; "
            "resources whose loading fails at each step; distinct by (operation, size, position, arguments).",
    "runs": [run("h_memstream", "stream", "asan plain", 12000, 300000, tv="msan fuzz"),
             run("h_memstream", "bigstream", "asan plain", 300, 3000),
             run("h_memstream", "resource", "asan plain", 4000, 40000)],
}
PROPS["C37"] = {
    "technique": "runtime monitoring: reference-count oracle on an instrumented heap under ASan; ThreadSanitizer with stress",
    "rule": "Random histories of AddRef/Release/QueryInterface/Clone on many streams; several threads using one stream's "
            "counter with injected delays; distinct by (operation, count) and by the final interleaving seen.",
    "runs": [run("h_memstream", "refs", "asan plain", 12000, 200000, tv="msan"),
             run("h_memstream", "refsmt", "tsan plain", 400, 8000)],
}
PROPS["C41"] = {
    "technique": "runtime monitoring with allocation-fault injection on an instrumented heap under ASan",
    "rule": "Random histories in which chosen allocations fail (each in turn, once or for good); only operations in which a "
            "fault fired count; distinct by (operation, size, state).",
    "runs": [run("h_mem", "fault", "asan plain", 3000, 60000),
             run("h_memstream", "memfault", "asan plain", 6000, 100000)],
}
PROPS["C42"] = {
    "technique": "runtime monitoring: ThreadSanitizer, and digests of results compared with those of the same work done alone",
    "rule": "Workers on instances of all modules, interleaved step by step and from within callbacks in one thread, in threads "
            "of their own, and reading the same instances in threads; memory streams in threads, also used from within a copying of "
            "another; distinct by worker history and by observed order of the threads' steps.",
    "runs": [run("h_threads", "threads", "tsan plain", 1600, 40000, shards=8),
             run("h_threads", "shared", "tsan plain", 800, 20000, shards=8),
             run("h_threads", "interleave", "asan plain", 4000, 100000),
             run("h_memstream", "streamsmt", "tsan asan", 400, 8000)],
}
PROPS["C43"]["runs"].append(run("h_value", "extreme", "asan plain", 4000, 40000))
PROPS["C45"] = {
    "technique": "runtime monitoring: allocation-trace monitor on an instrumented heap; reading with every allocation failing",
    "rule": "Histories of arrays, strings and dictionaries watched at the heap boundary: bytes held after each operation, requests "
            "per growing, shrinking and steady use; random trees read, and paths followed, while every allocation fails; distinct by "
            "(size, keys, requests) and by (tree, operation).",
    "runs": [run("h_value", "economy", "asan plain", 1200, 40000)],
}
PROPS["C46"] = {
    "technique": "runtime monitoring: every allocation made to fail; digests of results compared with those of the same work done with memory",
    "rule": "Workers on trees, lists, codecs and checksums, command lines and macros, and readers of instances of all modules, which "
            "have no memory in three steps of four; distinct by worker history.",
    "runs": [run("h_threads", "dry", "asan plain", 3200, 400000), run("h_threads", "drybig", "asan plain", 600, 30000)],
}
PROPS["C47"] = {
    "technique": "runtime monitoring: digests of results in changing worlds (errno, locale, rounding mode, environment, junk in memory) compared; the world watched for changes",
    "rule": "Workers of every module, the world changed before each step; distinct by worker history.",
    "runs": [run("h_threads", "world", "asan plain", 2600, 200000, tv="msan")],
}
PROPS["C48"] = {
    "technique": "runtime monitoring: executed edges and bytes handled counted (coverage instrumentation, wrapped functions of the C library); costs at two sizes compared",
    "rule": "Uses of every module with n and R times n items; distinct by (operation, n, R, parameters).",
    "runs": [run("h_cost", "growth", "cost", 800, 20000)],
}
PROPS["C44"] = {
    "technique": "runtime monitoring: the same workers compiled as C and as C++ in lockstep, digests compared after each step",
    "rule": "Random histories on instances of every module, each run three times side by side: handled from C, from C++, and "
            "from both in turns; units which include a single header, run in random orders; memory streams as tables of functions and as "
            "C++ objects; distinct by worker and history so far.",
    "runs": [run("h_cpp", "cpp", "asan plain", 11000, 220000, tv="msan", cpu=30),
             run("h_alone", "alone", "asan plain", 600, 6000, tv="msan"),
             run("h_streamcpp", "streamcpp", "asan plain", 3000, 60000, tv="msan")],
}
