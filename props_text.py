"""Texts of the properties (properties.jsonl is generated from here by gen.py)."""

T = {}


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    T[id] = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [],
                    "hook_needed": None},
    }
    if state:
        T[id]["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]


# --------------------------------------------------------------------------
P("C01", "A buffer holds exactly the bytes its operation history dictates",
  """After any sequence of buffer operations (append, insert, insert_raw, remove, clear, reserve,
  shrink, reinitialisation) the reported size and content are exactly those of an ideal byte sequence
  edited the same way, and data added from an array is copied. No operation reads or writes outside
  the bytes it was given or owns, whatever the sizes, including empty insertions and removals at
  either end.""",
  ["inputs", "histories"],
  "every sequence of buffer operations with every size and offset",
  """The tests append, insert and remove a handful of fixed strings once; the growth, shrink and move
  paths depend on the history of sizes and on the current capacity.""",
  ["data/buffer.c", "data/buffer.h"],
  [("move of the tail on insert/remove", "data/buffer.c: buffer_insert_raw, buffer_remove"),
   ("capacity policy", "data/buffer.c: buffer_reserve/buffer_realloc/buffer_shrink")],
  ["return values of buffer_*", "buffer_size(), buffer_data()"])

P("C02", "The stack interface is LIFO and never corrupts items",
  """For any interleaving of push, push_raw, peek and pop of items of any sizes, pop returns the
  bytes pushed last and not yet popped, peek shows them without removing them, and the number of
  remaining bytes is always the sum of what is still pushed.""",
  ["inputs", "histories"],
  "every interleaving of pushes and pops of items of any size, crossing the grow and shrink points",
  """The test pushes and pops a few integers; popping shrinks and moves the storage depending on the
  history, so the bytes handed back by a pop can be clobbered at particular depths only.""",
  ["data/buffer.h", "data/buffer.c"],
  [("pop copies the item out before the storage shrinks", "data/buffer.h: stack_pop"),
   ("stack_push_raw", "data/buffer.h")],
  ["bytes returned by stack_pop/stack_peek"])

P("C03", "Each typed array behaves as an ideal array of its element type",
  """For each of the nine element types (signed and unsigned 8, 16, 32 and 64 bit integers and
  pointers), any sequence of appends, inserts (single, from array, raw), gets, sets, removals and
  range removals yields exactly the content an ideal array would have, at every index and for every
  value of the type. Element counts are always the number of elements, not bytes.""",
  ["inputs", "histories"],
  "every sequence of operations, every element type, every index and every value representable in the type",
  """The tests run a few operations on one or two of the nine element types; the functions are
  generated separately per type and a wrong index scale or type shows only for some types and
  values.""",
  ["data/buffer.h"],
  [("per-type function generator", "data/buffer.h: ARRAY_DEFINE__ and friends")],
  ["array_*_get, array_*_size, array_*_raw/data pointers"])

P("C04", "Buffer capacity: reserved room suffices, growth is amortised, memory returns",
  """After a successful reserve of n bytes, n more bytes can be added without any allocation and
  without the data moving; appending N bytes in small pieces causes only O(log N) reallocations; and
  removing (almost) everything gives memory back, so the held capacity stays within a constant factor
  of the content plus a small slack. Shrinking a buffer releases the unused room and keeps the
  content.""",
  ["inputs", "histories"],
  "every sequence of reserves, additions and removals of any sizes",
  """No test looks at allocations at all; a policy that reallocates every time, or never shrinks,
  passes all of them.""",
  ["data/buffer.c", "data/buffer.h"],
  [("growth by factor and shrink threshold", "data/buffer.c: buffer_insert_raw, buffer_remove, buffer_reserve, buffer_shrink")],
  ["allocation requests seen by the instrumented heap"])

P("C05", "The hash table is a faithful map across growth and shrinking",
  """For any history of inserts, unchecked inserts, lookups and removals with any consistent hash and
  comparator functions (however badly distributed), lookup and remove find exactly the node that is
  present under the key, insert refuses exactly the keys that are present, and no node gets lost,
  duplicated or invented when the table grows or shrinks. Emptiness is reported exactly when nothing
  is in it.""",
  ["inputs", "histories"],
  "every history of operations, any hash function (constant, clustered, random), any table size",
  """The tests insert and remove a few hundred words with one hash function; loss of nodes during
  re-partition depends on the count and on the bits of the hashes.""",
  ["data/htable.c", "data/htable.h"],
  [("planes of slots of increasing prime sizes", "data/htable.c"),
   ("moving nodes when a plane is added or dropped", "data/htable.c: htable grow/shrink helpers")],
  ["return values of htable_insert/lookup/remove", "nodes passed to the destructor by htable_fini"])

P("C06", "Hash table operations stay cheap in comparisons and memory",
  """With a well-distributed hash function, the mean number of comparator calls per insert, lookup and
  remove grows at most logarithmically with the number of nodes (up to hundreds of thousands), and the
  memory the table holds stays proportional to the number of nodes (nothing remains held once it is
  emptied), whatever history of growing and shrinking led there.""",
  ["inputs", "histories"],
  "every size of the table and every history, with a uniformly distributed hash",
  """Correct results hide a table that degenerates to a linked list or never shrinks; no test counts
  comparator calls or watches the heap.""",
  ["data/htable.c"],
  [("planes added as the load grows", "data/htable.c: htable_grow and its thresholds")],
  ["calls of the comparator counted per operation", "bytes held as seen by the instrumented heap"])

P("C07", "Tearing a hash table down visits every node once and leaves it reusable",
  """Finalising a hash table calls the destructor exactly once for each node still in it and for no
  other one, tolerates a missing destructor and a destructor which frees the node, and releases all
  memory the table allocated. The table is then empty and usable as a freshly initialised one.""",
  ["histories"],
  "every state of the table reachable by any history of operations",
  """The test tears down one small table once and does not watch the destructor calls against the
  live set or the allocations.""",
  ["data/htable.c"],
  [("walk over all planes and slots", "data/htable.c: htable_fini")],
  ["destructor calls", "instrumented heap at the end"])

P("C08", "The red-black tree is a faithful ordered set",
  """For any history of inserts, removals and lookups under any consistent ordering (comparator
  results of any magnitude), lookup and remove find exactly the node present under the key, insert
  refuses exactly the keys that are present and leaves the tree as it was, and an in-order walk lists
  exactly the present nodes in ascending order.""",
  ["inputs", "histories"],
  "every history of operations and every total order, including comparators returning extreme values",
  """The tests use a few fixed insertion orders of small integers; the rebalancing cases of removal
  depend on shapes and colours those orders never produce.""",
  ["data/rbtree.c", "data/rbtree.h"],
  [("insertion and removal fix-up", "data/rbtree.c: rbtree_insert, rbtree_remove and helpers")],
  ["return values", "full walks compared with the model set"])

P("C09", "The red-black tree stays balanced",
  """After every operation of any history the tree satisfies its ordering and colour invariants, and a
  lookup among n nodes costs at most 2*log2(n+1) comparisons (plus one), so no history can degrade
  it.""",
  ["histories"],
  "every history of insertions and removals, including sorted, alternating and adversarial ones",
  """A tree that is merely ordered passes every functional test; imbalance needs long adversarial
  histories and counting.""",
  ["data/rbtree.c"],
  [("colour and rotation logic", "data/rbtree.c: rotations and fix-up after insert and remove")],
  ["comparator calls per lookup", "rbtree_verify() of the CRE_TEST build"])

P("C10", "Tree cursors navigate exactly the ordered sequence of nodes",
  """A cursor obtained from a lookup, from the head or from the tail stands on that node, and stepping
  it forwards or backwards visits exactly the successors or predecessors in order and ends exactly
  past the last or first one, in a tree of any shape. A cursor stepped in one direction can be turned
  round at any node and yields the neighbour in the other direction. A cursor pointing nowhere (made by the initializer) has no current node and no neighbours.""",
  ["inputs", "histories"],
  "every tree shape reachable by any history, every starting node and every sequence of forward/backward steps",
  """The tests walk one small tree from end to end; turning round, starting in the middle and deep
  shapes are not reached.""",
  ["data/rbtree.c", "data/rbtree.h"],
  [("path stack of the cursor", "data/rbtree.c: rbtree_head, rbtree_tail, rbtree_current, rbtree_next, rbtree_prev, rbtree_lookup_ex")],
  ["node returned by each step"])

P("C11", "Iterative tree destruction hands out every node exactly once",
  """Repeatedly taking nodes out for destruction from a tree of any shape hands out every node exactly
  once, never touches a node already handed out (the caller may free or overwrite it immediately), and
  then reports the tree as empty and reusable.""",
  ["histories"],
  "every tree shape reachable by any history",
  """The test destroys one small tree; whether a freed node is touched depends on the shape and is
  invisible without poisoning.""",
  ["data/rbtree.c", "data/rbtree.h"],
  [("walk with relinking", "data/rbtree.c: rbtree_fini_step")],
  ["nodes handed out, with each one freed under ASan at once"])

P("C12", "The doubly-linked list keeps exactly the expected order both ways",
  """After any sequence of appends, prepends, insertions after/before a node and removals, walking forwards yields exactly the expected sequence, walking
  backwards its reverse, the ends and emptiness are reported accordingly, and every node belongs to
  exactly one list. An iterating caller may remove the node it stands on after fetching the next
  one.""",
  ["histories"],
  "every sequence of list operations over several lists",
  """The tests do short fixed sequences; a stale back or end link shows only when a later operation
  uses it.""",
  ["data/list.h"],
  [("sentinel-linked list", "data/list.h: list_* functions")],
  ["forward and backward walks after every operation"])

P("C13", "Singly-linked list and queue keep exactly the expected order",
  """After any sequence of insertions at the head (and at the tail for the queue-like list),
  insertions after a node and removals after a node or from the head, a walk yields exactly the
  expected sequence, and head, tail and emptiness are reported accordingly, also after the list was
  emptied and reused.""",
  ["histories"],
  "every sequence of operations on singly-linked lists and queues",
  """A stale tail pointer after removing the last element only matters for the append that follows;
  the tests use short fixed sequences.""",
  ["data/list.h"],
  [("tail pointer maintenance", "data/list.h: slist_*, qlist_* functions")],
  ["walk after every operation"])

P("C14", "Scalar values round-trip and convert as documented",
  """A value initialised with any boolean, integer or floating-point number reports its type and
  returns exactly that number from the matching getter, and the other getters return the
  mathematically converted number whenever the type can hold it (integers exactly, fractional numbers
  rounded to nearest, halves away from zero); an integer which an integer type cannot hold is converted
  as by a cast in C. This holds at every extreme of every type.""",
  ["inputs"],
  "every number of every scalar type, and every getter",
  """The tests try a few dozen pairs; sign extension, rounding at halves and limits of the types fail
  only on particular numbers.""",
  ["data/value.c", "data/value.h"],
  [("packed payload accessors", "data/value.c: value_init_*, value_int32..value_double")],
  ["getter results compared with exact arithmetic"])

P("C15", "The type compatibility test is exact",
  """A number is reported compatible with an integer type exactly when that type can hold it: the number
  lies in the range of the type and, if it is a floating-point one, it is also integral (so neither
  NaN nor an infinity is). Any number within the range is compatible with the floating-point types,
  where only precision may be lost. A value is always compatible with its own type, and a value which
  is not a number (null, boolean, string, array, dictionary) with no other type. The answer is right
  at every limit of every type.""",
  ["inputs"],
  "every value of every type against every target type",
  """The tests check a table of some pairs; the limits of each of the 36 pairs are not sampled, and
  floating-point limits are where the answer goes wrong.""",
  ["data/value.c", "data/value.h"],
  [("range comparisons", "data/value.c: value_is_compatible")],
  ["value_is_compatible() for every target type"])

P("C16", "Strings of any length and content are stored binary-safe",
  """A string value keeps exactly the given bytes (including zero bytes) and length for every length
  from zero to gigabytes, reports a pointer that is zero-terminated, and is independent of the
  caller's memory. The length is reported correctly at every boundary of the internal encoding.""",
  ["inputs"],
  "every length and every byte content",
  """The tests store a few short strings; the length encoding changes form at 14, 128, 16384, 2^21,
  2^28 and beyond, and mistakes show at the boundaries only.""",
  ["data/value.c"],
  [("variable-length size prefix and inline storage of short strings", "data/value.c: value_init_string_, value_string, value_string_length")],
  ["value_string(), value_string_length()"])

P("C17", "Value arrays behave as ideal sequences",
  """After any sequence of appends, inserts, removals, range removals and cleanings, the array reports
  the size and yields at each index the value an ideal sequence of values would, out-of-range accesses
  report absence, and the contained values keep their payload whatever moves the growth and shrinking
  cause.""",
  ["inputs", "histories"],
  "every sequence of array operations and every index",
  """The tests do a few operations on short arrays; moving values on growth and shrinking depends on
  the history.""",
  ["data/value.c"],
  [("growth/shrink of the item vector", "data/value.c: value_array_* functions")],
  ["value_array_size/get/get_all after every operation"])

P("C18", "Dictionaries are faithful maps over arbitrary byte-string keys",
  """After any sequence of additions, get-or-adds, removals and cleanings, a dictionary maps exactly
  the present keys (any bytes, any length, including zero bytes and common prefixes) to their own
  values, refuses exactly the duplicates, and reports the number of keys. Walking or listing in sorted
  order gives each key once in strictly ascending order, consistent with the custom comparator if one
  was given, and early termination by the visitor is honoured.""",
  ["inputs", "histories"],
  "every sequence of dictionary operations, any keys, any comparator",
  """The tests use a few short textual keys; ordering with embedded zeros, prefixes, and the
  rebalancing of removals need diverse histories.""",
  ["data/value.c"],
  [("red-black tree of key/value nodes", "data/value.c: value_dict_* functions")],
  ["lookups of present and absent keys, walks and key listings after every operation"])

P("C19", "Order-maintaining dictionaries remember the insertion order",
  """A dictionary created with the order-maintaining flag walks and lists its keys exactly in the order
  in which they were added, across any removals and re-additions, and only such a dictionary claims
  to be ordered.""",
  ["histories"],
  "every history of additions and removals",
  """The test adds a few keys and walks once; relinking on removal of the first, last or only key and
  re-adding depend on the history.""",
  ["data/value.c"],
  [("doubly-linked order list through the nodes", "data/value.c: value_dict_add/get_or_add/remove, walk_ordered, keys_ordered")],
  ["value_dict_walk_ordered, value_dict_keys_ordered"])

P("C20", "Dictionary lookups stay logarithmic",
  """After any history of additions and removals the dictionary's tree keeps its balance invariants,
  and finding a key among n costs at most 2*log2(n+1)+1 key comparisons.""",
  ["histories"],
  "every history of additions and removals, including sorted and adversarial ones",
  """An unbalanced dictionary still answers correctly; no test counts comparisons over long
  histories.""",
  ["data/value.c"],
  [("red-black rebalancing", "data/value.c: value_dict fix-up after insert and remove")],
  ["calls of the custom comparator", "value_dict_verify() of the CRE_TEST build"])

P("C21", "A path finds exactly the value that stepwise navigation finds",
  """Looking a path up gives exactly the value reached by applying its components one after another
  (key components in dictionaries, bracketed non-negative indexes from the start and negative ones
  from the end in arrays), and gives nothing exactly if some step does not exist or does not fit the
  kind of value. Any other text never reads outside the path and never invents a value.""",
  ["inputs"],
  "every tree of values and every path text, including malformed ones",
  """The tests evaluate a few well-formed paths; index overflow, negative ends and malformed brackets
  form an unbounded input space.""",
  ["data/value.c"],
  [("path parser", "data/value.c: value_path")],
  ["returned pointer compared with stepwise navigation"])

P("C22", "Building a path creates exactly the missing parts",
  """Building a path returns the value at that path, creating missing dictionary members and, for each
  empty bracket, one appended array element (a value which is new becomes the array or dictionary the
  path needs), and nothing else: every value that existed before is preserved, and a path which exists
  is only found. It refuses (returns NULL) when an existing value on the way is of a kind that does not
  fit or when an array index does not exist; existing values are preserved then, too.""",
  ["inputs", "histories"],
  "every tree, every path, and every sequence of building steps",
  """The tests build one or two paths; interaction with existing values and with several appends needs
  many histories.""",
  ["data/value.c"],
  [("path parser with creation", "data/value.c: value_build_path")],
  ["returned value and the full tree compared with a model tree"])

P("C23", "Values own their data: everything released once, nothing touched after",
  """Cleaning up a value of any structure releases every block of memory it (recursively) holds,
  exactly once; removing, replacing or cleaning members releases exactly those members; and moving or
  growing containers neither leaks nor double-frees. A null value needs no release.""",
  ["histories"],
  "every structure built and edited by any history of value operations",
  """The tests do not watch the heap, and only build small fixed structures.""",
  ["data/value.c"],
  [("recursive release", "data/value.c: value_fini, value_array_clean, value_dict_clean")],
  ["instrumented heap", "ASan"])

P("C24", "Base64 encoding is exactly RFC 4648 for every input",
  """For every input and any of the standard and URL-safe alphabets, with or without padding, the encoder
  produces exactly the text RFC 4648 prescribes and returns its length, the size query announces
  exactly what is needed, and nothing is written beyond the given output size. Too small an output is
  reported as an error.""",
  ["inputs", "configurations"],
  "every input bytes and length, every option set, every output size",
  """The tests encode the few RFC vectors; wrong bits show for particular residues and byte values
  only, and size arithmetic only for huge inputs.""",
  ["encode/base64.c", "encode/base64.h"],
  [("3-to-4 conversion and tail handling", "encode/base64.c: base64_encode")],
  ["output bytes compared with an independent encoder", "ASan on exact-size output"])

P("C25", "Base64 decoding accepts exactly valid encodings and inverts encoding",
  """Decoding any text produced by the encoder returns the original bytes, and a text which is not a
  valid encoding (foreign characters, misplaced or incomplete padding, impossible length, stray bits in the
  last character) is rejected with an error, for any bytes in the text; padding left out altogether is
  tolerated, as documented. The size query is sufficient and nothing is read or written
  outside the given sizes.""",
  ["inputs", "configurations"],
  "every text, every option set, every output size",
  """The tests decode valid vectors and a few bad ones; each of the 256 byte values at each position
  must be classified.""",
  ["encode/base64.c", "encode/base64.h"],
  [("decoding table and padding logic", "encode/base64.c: base64_decode")],
  ["return code and output compared with an independent decoder"])

P("C26", "Hexadecimal encoding is exact for every input",
  """For every input the encoder produces the two hexadecimal digits of each byte in order, in the
  requested letter case, with the terminator the documentation announces, returns the right size, and
  never writes beyond the given output size. Too small an output is reported as an error.""",
  ["inputs", "configurations"],
  "every input, length, letter case and output size",
  """The tests encode a couple of strings; the size boundary and each nibble need full coverage.""",
  ["encode/hex.c", "encode/hex.h"],
  [("digit tables and size computation", "encode/hex.c: hex_encode")],
  ["output and return value"])

P("C27", "Hexadecimal decoding accepts exactly pairs of hexadecimal digits",
  """Decoding any sequence of pairs of hexadecimal digits (either case, mixed) returns exactly the
  denoted bytes; any other text, for any byte at any position or odd length, is rejected with an
  error. Nothing is read or written outside the given sizes.""",
  ["inputs"],
  "every text and every output size",
  """The tests decode a few valid strings; all 256 byte values at both digit positions must be
  classified.""",
  ["encode/hex.c", "encode/hex.h"],
  [("digit classification", "encode/hex.c: hex_decode")],
  ["output and return value"])

P("C28", "CRC-32 equals the standard checksum for any data",
  """The checksum of any data equals the standard CRC-32 (IEEE 802.3), for any byte values, any length (also
  beyond 2 and 4 GiB) and any alignment, and nothing outside the data is read.""",
  ["inputs"],
  "every data, length and alignment",
  """The tests check a few known strings; the block loops and their tails depend on length and
  alignment, and lengths above INT_MAX are not tried.""",
  ["hash/crc32.c", "hash/crc32.h"],
  [("table driven loop", "hash/crc32.c: crc32")],
  ["result compared with a bitwise reference"])

P("C29", "FNV-1a equals the standard hash, however the data is split",
  """The 32 and 64-bit hash of any data equals the FNV-1a definition for any length, byte values and
  starting basis, and passing the hash of a prefix as the basis for the rest gives the same result as
  hashing all at once, for any split.""",
  ["inputs"],
  "every data, length, byte value and split",
  """The test vectors are plain text, so bytes above 127, long and split inputs are not covered.""",
  ["hash/fnv1a.c", "hash/fnv1a.h"],
  [("xor-multiply loop", "hash/fnv1a.c")],
  ["result compared with the definition"])

P("C30", "Chunk-allocated blocks are disjoint, stable and usable in full",
  """Every block handed out by the chunk allocator is usable over its full requested size, overlaps no
  other block of the same allocator, and keeps its content untouched by any later allocation until the
  allocator is torn down. This holds for any mixture of sizes, including zero, tiny and larger than a
  chunk, and for any chunk size setting.""",
  ["inputs", "histories", "configurations"],
  "every sequence of allocation sizes and every chunk size",
  """The tests allocate a few blocks; overlaps arise only at particular remainders of a chunk or after
  an oversized allocation.""",
  ["mem/memchunk.c", "mem/memchunk.h"],
  [("offset arithmetic in the current chunk", "mem/memchunk.c: memchunk_alloc")],
  ["interval check of all blocks, content re-verified"])

P("C31", "The chunk allocator batches allocations and releases everything",
  """Small blocks are served in batches: the number of heap allocations stays proportional to the total
  bytes divided by the chunk size (plus one per oversized block), and the waste stays bounded. Tearing
  the allocator down returns every heap block exactly once, and it may then be used anew.""",
  ["histories", "configurations"],
  "every sequence of allocation sizes and every chunk size",
  """No test counts heap calls or watches the heap at the end.""",
  ["mem/memchunk.c", "mem/memchunk.h"],
  [("chunk list", "mem/memchunk.c: memchunk_alloc, memchunk_fini")],
  ["instrumented heap"])

P("C32", "MALLOCA gives usable memory for any size, and FREEA releases it",
  """For any size and threshold expression the allocation yields memory usable over the whole requested
  size (or NULL for impossible sizes), taken from the heap only at or above the threshold, and releasing it frees heap
  memory exactly once and stack memory never. The macros evaluate safely inside larger expressions and whatever
  the caller's variables are called.""",
  ["inputs", "programs"],
  "every size and threshold, every argument expression, and nested or repeated use",
  """The tests try three sizes; sizes around the threshold and near SIZE_MAX, and operator expressions as
  arguments, are not tried.""",
  ["mem/malloca.h"],
  [("marker before the block", "mem/malloca.h: MALLOCA_, FREEA")],
  ["instrumented heap, address of the block, ASan"])

P("C33", "Command lines are parsed as documented, for any option set and arguments",
  """For any option table and any argument vector the callback receives exactly the sequence of options,
  option arguments, positional arguments and error reports that the documented syntax prescribes (long options with or without '=' argument, short options with attached or separate argument, grouped short
  options, compiler-like options, "--" terminator). Nothing outside the arguments and the table
  is ever read.""",
  ["inputs", "configurations"],
  "every option table and every argument vector",
  """The tests parse a dozen fixed command lines; combinations of option kinds within one group, empty
  arguments, prefixes of other options, and arguments running out are unbounded.""",
  ["misc/cmdline.c", "misc/cmdline.h"],
  [("long, short-group and compiler-like handlers", "misc/cmdline.c: cmdline_read and helpers")],
  ["callback sequence compared with an independent parser", "ASan on exact-size vectors"])

P("C34", "Command line callbacks control the parse; arguments stay untouched",
  """The parse calls the callback once per recognised item in order with the caller's context pointer,
  stops at once when the callback returns non-zero and returns that very number, returns zero
  otherwise, and never modifies the argument strings, the vector or the option table. Option arguments
  and positional arguments are passed as pointers into the caller's own strings.""",
  ["inputs", "configurations"],
  "every command line, every point at which the callback aborts and every abort code",
  """The tests let the parse abort in one or two situations; every kind of item must honour the
  abort.""",
  ["misc/cmdline.c", "misc/cmdline.h"],
  [("propagation of the callback result", "misc/cmdline.c: cmdline_read and helpers")],
  ["number of calls after abort, return value, byte comparison of the inputs"])

P("C35", "Utility macros compute correctly in any expression context",
  """MIN, MAX, MIN3, MAX3, CLAMP and ABS give the mathematically right result for every operand and
  operator expression and inside any larger expression, SIZEOF_ARRAY counts the elements of any array,
  OFFSETOF and CONTAINEROF agree with the real layout and invert each other for any member, and STRINGIZE
  gives the text of its expanded argument. A macro of one of these names which the program has defined
  before is left as it is, as documented.""",
  ["inputs", "programs"],
  "every operand value and type, every expression used as an argument",
  """The tests call the macros with a few literals; precedence mistakes and integer extremes need
  operator expressions and limits.""",
  ["misc/defs.h"],
  [("macro definitions", "misc/defs.h")],
  ["results compared with plainly written arithmetic"])

P("C36", "Memory streams read, seek, copy and clone as IStream prescribes",
  """A memory stream over any data returns, for any sequence of reads, seeks, copies and clones, exactly
  the bytes at its position, advances by what was read, reports short reads at the end, keeps clones
  independent, and refuses writing and seeks before the start without moving. Offsets of any magnitude
  never cause an access outside the data.""",
  ["inputs", "histories"],
  "every data, every sequence of stream operations and every offset",
  """The module is Windows-only, its few tests do not even run here; offset arithmetic at extremes is
  not covered by them either.""",
  ["win32/memstream.c", "win32/memstream.h"],
  [("position arithmetic", "win32/memstream.c: memstream_Read, memstream_Seek, memstream_CopyTo, memstream_Clone")],
  ["results and bytes compared with a model stream"])

P("C37", "Memory streams obey COM lifetime and identity rules, also across threads",
  """A stream lives exactly as long as references remain: each AddRef/Release adjusts the count by one
  even when called concurrently, the last Release frees the stream once, QueryInterface hands out a
  counted pointer for exactly the supported interfaces, and clones have lives of their own.""",
  ["schedules", "histories"],
  "every interleaving of reference operations of several threads, and every history",
  """Tests are single-threaded; a non-atomic counter or a leaked reference is visible only under
  concurrency or heap watching.""",
  ["win32/memstream.c"],
  [("interlocked reference counter", "win32/memstream.c: memstream_AddRef, memstream_Release, memstream_QueryInterface")],
  ["reference counts returned, instrumented heap, ThreadSanitizer"])

P("C38", "A failed allocation leaves a buffer, stack or array unharmed",
  """Whenever a memory allocation fails during any buffer, stack or array operation, the operation
  either reports failure and leaves the content exactly as it was or succeeds in full; it never
  crashes, leaks or corrupts, and the same operation succeeds when repeated with memory available.""",
  ["fault_sequences", "histories"],
  "every operation of every history, with any of its allocations failing",
  """No test injects allocation failures.""",
  ["data/buffer.c", "data/buffer.h"],
  [("realloc result checked before state is changed", "data/buffer.c")],
  ["state after each injected failure"])

P("C39", "A failed allocation leaves a hash table unharmed",
  """Whenever a memory allocation fails during an insertion or removal, either the insertion reports
  failure and the table contains exactly the nodes it contained before, or the operation takes full
  effect; all present nodes remain findable and the table keeps working afterwards.""",
  ["fault_sequences", "histories"],
  "every insertion and removal of every history, with any allocation failing",
  """No test injects allocation failures; growth happens only at particular counts.""",
  ["data/htable.c"],
  [("failure path of growing", "data/htable.c")],
  ["full content check after each injected failure"])

P("C40", "A failed allocation leaves values, arrays and dictionaries unharmed",
  """Whenever a memory allocation fails during any value operation (initialising, appending, inserting,
  adding keys, building paths, removing), the operation reports failure without losing, corrupting or
  leaking any existing member, or succeeds in full, and everything can still be cleaned up and used.""",
  ["fault_sequences", "histories"],
  "every operation of every history, with any of its allocations failing",
  """No test injects allocation failures; some operations make several allocations.""",
  ["data/value.c"],
  [("failure paths of value_* functions", "data/value.c")],
  ["full structural comparison after each injected failure", "instrumented heap"])

P("C41", "A failed allocation is reported by chunk, stack and stream allocators",
  """Whenever a memory allocation fails, the chunk allocator and MALLOCA return NULL, and creating or
  cloning a memory stream returns a failing result code and no stream; blocks and streams already
  handed out stay intact, nothing leaks and later requests succeed.""",
  ["fault_sequences", "histories"],
  "every allocating call of every history failing",
  """No test injects allocation failures.""",
  ["mem/memchunk.c", "mem/malloca.h", "win32/memstream.c"],
  [("NULL checks", "mem/memchunk.c: memchunk_alloc; win32/memstream.c: memstream_create, memstream_Clone")],
  ["results, instrumented heap"])

P("C42", "Independent instances share no hidden state; read-only use is concurrent-safe",
  """Threads each working on their own instances of any module never interfere: no data race occurs and
  every thread gets the same results as alone. Concurrent read-only operations on one shared instance
  (lookups, walks with own cursors, getters, hashing, encoding, parsing) are race-free too.""",
  ["schedules"],
  "every interleaving of threads using separate instances, or only reading shared ones",
  """The tests are single-threaded; a static scratch variable or a lazily built table would pass all
  of them.""",
  ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c",
   "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"],
  [("no mutable static data; const lookups", "all modules")],
  ["ThreadSanitizer reports", "per-thread results compared with the sequential run"])

P("C43", "Requests of impossible size fail cleanly",
  """Whenever a requested size or count is so large that a size computation would overflow or memory
  cannot suffice, the operation of any module reports failure (or an empty result) and leaves its
  object as it was; it never allocates too little and then writes beyond it.""",
  ["inputs"],
  "every size and count up to the maximum of its type, in every operation taking one",
  """The tests use small sizes only; wrap-around needs sizes near the limits of the types.""",
  ["data/buffer.c", "data/buffer.h", "data/value.c", "mem/memchunk.c", "mem/malloca.h",
   "encode/base64.c", "encode/hex.c"],
  [("overflow checks before allocation", "buffer_reserve, buffer_insert_raw, array_*_insert_n, memchunk_alloc, MALLOCA_, base64/hex size checks")],
  ["result and state after the extreme request, size of heap requests"])

P("C44", "The interfaces serve C and C++ callers alike, together in one program",
  """Every public header (buffer, htable, list, rbtree, value, base64, hex, crc32, fnv1a, memchunk, malloca,
  cmdline, defs, memstream) can be used from C and from C++ in several source files of one program: it links, the types
  have the same size and layout for both, every function, inline function and macro gives the same answers
  and effects called from either, and an instance made by one may be changed, read and torn down by the
  other. A header needs no other include before it, and may be included twice and in any order.""",
  ["inputs", "histories"],
  "every history of operations on any module's instances, split in any way between C and C++ callers",
  """All the tests are C and each is a single source file; nothing is ever compiled as C++ although each
  header has code for it, in which linkage, inline definitions and casts differ.""",
  ["data/buffer.h", "data/htable.h", "data/list.h", "data/rbtree.h", "data/value.h", "encode/base64.h", "encode/hex.h",
   "hash/crc32.h", "hash/fnv1a.h", "mem/memchunk.h", "mem/malloca.h", "misc/cmdline.h", "misc/defs.h",
   "win32/memstream.h"],
  [("extern \"C\"; the inline and offsetof variants chosen by __cplusplus and the C standard", "all public headers")],
  ["results of each operation when called from C, from C++ and from both in turns", "sizes of public types"])

P("C45", "Values take memory in proportion to their content, and reading takes none",
  """Growing a value array to N members, or emptying it, one by one causes only O(log N) allocation requests, and
  adding and removing members around one size does not reallocate each time; an array whose members are
  removed gives its memory back, so that what it holds stays within a constant factor of its size plus a small
  slack. A string takes its length and a small constant, a dictionary a bounded amount per member besides its
  keys. Reading (getters, lookups, walks, lists of keys, paths) succeeds even when no memory can be had.""",
  ["inputs", "histories"],
  "every history of additions and removals, every tree being read",
  """The tests look at contents only; an array which grows by one, never shrinks, or a lookup which makes a copy
  of the key passes all of them.""",
  ["data/value.c"],
  [("growth by doubling and the shrinking threshold of arrays; nodes allocated one by one", "data/value.c: value_array_insert, value_array_remove_range, value_array_good_alloc_size, value_dict_get_or_add_")],
  ["requests and held bytes seen by the instrumented heap", "results of reading while every allocation fails"])

P("C46", "What needs no memory works when there is none",
  """Operations which take everything they work on from the caller (the red-black tree, the lists, encoding,
  decoding and checksums, the parsing of a command line, the utility macros), and reading of any container
  (buffers, stacks, arrays, hash tables, trees, values), give the same results when no memory can be
  allocated as when it can.""",
  ["inputs", "fault_sequences", "histories"],
  "every history of such operations, with memory unavailable at any of its steps",
  """The interfaces have no way of reporting want of memory here, so a caller relies on there being none; no
  test ever runs out of memory.""",
  ["data/rbtree.c", "data/list.h", "data/htable.c", "data/buffer.h", "encode/base64.c", "encode/hex.c", "hash/crc32.c",
   "hash/fnv1a.c", "misc/cmdline.c"],
  [("intrusive nodes, output buffers of the caller, small local scratch buffers", "all of the modules named")],
  ["results compared with those of the same operations when memory is available"])

P("C47", "Results depend on the arguments only, and nothing else is affected",
  """What an operation answers and does to its object is determined by its arguments and the object's history.
  It does not depend on errno, on the locale, on the floating-point rounding mode (except for conversions of
  numbers to float and double), on environment variables, on addresses, nor on what uninitialised memory
  contains; and it does not change the locale, the rounding mode, the environment or the signal mask, nor
  print anything.""",
  ["inputs", "histories"],
  "every history of operations, whatever the state of the process around it",
  """Tests run in one world: the C locale, errno 0, fresh zeroed pages, the default rounding mode.""",
  ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/list.h", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c",
   "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"],
  [("no calls of functions which depend on the locale, environment or errno; rounding of numbers done by hand", "data/value.c: ROUNDF, ROUNDD; value_path; misc/cmdline.c; encode/hex.c")],
  ["results of the same history in two worlds", "locale, rounding mode, environment, signal mask and output positions around each step"])

P("C48", "The cost of every operation stays in its class",
  """Operations on lists, ends of buffers, stacks and arrays, single items of arrays, blocks of chunks take
  (amortised) constant time; operations on trees and dictionaries logarithmic; on hash tables (amortised,
  with a sound hash function) constant; walking, destroying, encoding, decoding, hashing, following a path
  and parsing a command line linear. Nothing becomes quadratic as the amount of data grows.""",
  ["histories", "inputs"],
  "every number of items and order of operations",
  """Tests use a few dozen items and measure nothing; a list walked from its head on each append passes all of them.""",
  ["data/buffer.c", "data/buffer.h", "data/htable.c", "data/rbtree.c", "data/list.h", "data/value.c", "encode/base64.c",
   "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c"],
  [("geometric growth, tail pointers, counters kept, balanced trees, single passes", "all of the modules named")],
  ["edges of the control flow graph executed and bytes handled in each operation, at two sizes"])
