#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Base58 is an exact, reversible encoding and rejects anything else",
  "Encoding any byte string yields one '1' per leading zero byte followed by the Bitcoin-alphabet base-58 digits of the remaining big-endian number, and decoding that text yields the original bytes, while every text made only of alphabet characters decodes to the bytes that encode to it. Text containing any other character, at any position, is reported as an error (a negative result, and no buffer from the allocating decoder). Encoding into a caller's buffer of any size stores the longest prefix that fits, zero-terminates when there is room and never writes past the buffer; the allocating variants return buffers and lengths describing exactly the encoded or decoded data.",
  ["inputs"], "every byte string (any length, any number of leading zeros), every text, every output buffer size",
  "the 14 fixed vectors of tests/base58 sample one point each; they never feed invalid text, short buffers or check returned lengths",
  ["coda/base58.c", "coda/base58.h"],
  [("big-number division/multiplication over a scratch digit array", "coda/base58.c: coda_base58_encode, coda_base58_decode"),
   ("buffer sizing from the 138/100 and 733/1000 ratios", "coda/base58.c: *_alloc")],
  observe=["coda_base58_encode", "coda_base58_encode_alloc", "coda_base58_decode", "coda_base58_decode_alloc", "coda_isbase58"])

p("C02", "Base64 encoding is RFC 4648 exact, reversible, and decoding is strict",
  "For every byte string the Base64 encoder produces the RFC 4648 text (with '=' padding), and decoding that text returns the original bytes. Decoding succeeds exactly for sequences of four-character groups over the alphabet with padding only in the last group, and reports failure for every other text, in which case the complete groups before the first bad one are still decoded. For every output buffer size both directions store the longest prefix that fits, never write beyond the buffer and report the number of decoded bytes stored; the allocating variants return exact lengths, and an input too long to encode is refused rather than under-allocated. The length macros give the exact length of the encoding and never less than the decoding needs.",
  ["inputs"], "every byte string, every text (valid, truncated, wrongly padded, foreign characters), every output buffer size",
  "no test exercises base64 at all; padding and truncation classes interact with every length modulo 3 and 4",
  ["coda/base64.c", "coda/base64.h"],
  [("group-wise encoder with early exit on a full buffer", "coda/base64.c: coda_base64_encode"),
   ("group-wise strict decoder", "coda/base64.c: coda_base64_decode")],
  observe=["coda_base64_encode", "coda_base64_encode_alloc", "coda_base64_decode", "coda_base64_decode_alloc", "coda_isbase64", "CODA_BASE64_LENGTH"])

p("C03", "Web64 is a reversible URL-safe Base64 with strict decoding",
  "For every byte string the web64 encoder produces the Base64 text over the alphabet A-Z a-z 0-9 - _ with '.' as padding, so that the text survives percent-encoding unchanged, and decoding it returns the original bytes. Decoding succeeds exactly for sequences of four-character groups over that alphabet with '.' padding only in the last group and reports failure for every other text. For every output buffer size both directions store the longest prefix that fits, never write beyond the buffer, and report the number of decoded bytes stored. The length macros give the exact length of the encoding and never less than the decoding needs.",
  ["inputs"], "every byte string, every text, every output buffer size",
  "web64 has no tests",
  ["coda/web64.c", "coda/web64.h"],
  [("encoder/decoder tables and loops", "coda/web64.c: web64_encode, web64_decode")],
  observe=["web64_encode", "web64_decode", "WEB64_LENGTH"])

p("C04", "Percent-encoding round-trips every byte string and emits only safe bytes",
  "URL-encoding any byte string leaves letters, digits and - . _ ~ unchanged, turns a space into '+' (or %20 in the no-plus variant) and every other byte into % and two upper-case hex digits; decoding the result of either variant returns the original bytes. Decoding any text in which every '%' with at least two bytes after it starts a %XX escape of two hex digits (either case) replaces each escape by its byte and '+' by a space and copies everything else, including a '%' with fewer than two bytes after it (what other uses of '%' decode to is left open). The caller-buffer and string variants always agree byte for byte, report the exact length, and the buffer variants write at most three times the input (encoding) or the input length (decoding) plus a terminating zero.",
  ["inputs"], "every byte string, including zero and non-ASCII bytes, and every text to decode",
  "the url functions have no tests; 256 byte values times position and truncation classes",
  ["coda/url.cpp", "coda/url.hpp"],
  [("bitmap of bytes to escape and hex tables", "coda/url.cpp: table_urlenc, table_urldec"), ("encode/decode loops, one pair per variant", "coda/url.cpp: coda_urlenc, coda_urlenc_noplus, coda_urldec")],
  observe=["coda_urlenc", "coda_urlenc_noplus", "coda_urldec"])

p("C05", "Bounded URL escape/unescape never overruns and never alters what fits",
  "The three size-limited functions (escape, unescape, pre-unescape) write only inside the destination size they are given, for every input and every size, and leave a zero-terminated string. The text they leave is a prefix of the full conversion that never ends inside an escape or inside the bytes of one decoded code point, and is the complete conversion whenever that is at least eight bytes shorter than the destination. The full conversion is: escape - as URL-encoding with '+' for space, for every byte value; unescape - '+' to space, %XX, \\xXX and %uXXXX (exactly four hex digits, code points below U+0800 become UTF-8, others are dropped) decoded; pre-unescape - only %XX and \\xXX escapes of bytes above 0x7F decoded, every other escape and character kept verbatim.",
  ["inputs"], "every zero-terminated text (including non-ASCII bytes and incomplete escapes) and every destination size",
  "never executed by any test; overruns depend on the alignment of an escape with the end of the buffer",
  ["coda/url.cpp", "coda/url.hpp"],
  [("size guard in each loop", "coda/url.cpp: coda_url_escape, coda_url_unescape, coda_url_preunescape")],
  observe=["coda_url_escape", "coda_url_unescape", "coda_url_preunescape"])

p("C06", "Query strings and header blocks parse into exactly the pairs they contain",
  "Parsing a query string of any length yields a map in which, for each '&'-separated piece containing '=', the text before its first '=' maps to the text after it, later pieces overriding earlier ones, and pieces without '=' contribute nothing. Parsing a header block yields, for each CRLF-terminated line up to the first empty line or the end, the text before the first ':' mapped to the text after it, and lines without ':' contribute nothing. Only the given bytes are read, entries already in the map under other keys are kept, and the zero-terminated variants agree with the length-delimited ones.",
  ["inputs"], "every byte buffer and length, including separators in unusual places and buffers that are not zero-terminated",
  "no tests; the interesting inputs are separators at boundaries (first, last, adjacent, beyond the given length)",
  ["coda/url.cpp", "coda/url.hpp", "coda/string.c"],
  [("separator scans bounded by the end pointer", "coda/url.cpp: coda_get_params_buf, coda_get_header_buf")],
  observe=["coda_get_params", "coda_get_params_buf", "coda_get_header", "coda_get_header_buf"])

p("C07", "Absolute URLs are normalised to one canonical, stable form",
  "Parsing any non-empty text as an absolute URL yields scheme (http:// if none was given), lower-cased host without leading or trailing dots, a path starting with '/' free of empty, '.' and '..' segments (never climbing above the root), the unchanged query, and no fragment; without the fetchable flag a trailing slash is dropped except at the root, with it the slash is kept. The domain reported is the last two dot-separated labels of the host (with any port), for hosts without empty labels, and the reported lengths match the texts. Parsing is idempotent: parsing the resulting URL again with the same flags gives the same URL and domain, and only the given number of input bytes is ever read. A text of 4 GB or more, too long for the lengths an object keeps, is refused and the object left empty.",
  ["inputs"], "every byte string and length, both values of the fetchable flag",
  "coda_url_parser is only built, never run; path normalisation is an in-place rewrite whose cases multiply with every segment sequence",
  ["coda/url_parser.cpp", "coda/url_parser.hpp", "coda/string.c"],
  [("host normalisation", "coda/url_parser.cpp: assign_anchor"), ("in-place dot-segment removal", "coda/url_parser.cpp: assign_refers"), ("allocation bound for URL plus domain", "coda/url_parser.cpp: create_absolute")],
  [("val_str/dom_str", "URL text and, behind it in the same block, the domain text", "coda/url_parser.hpp")],
  observe=["coda_url::create_absolute", "get_url", "get_domain", "get_url_len", "get_domain_len"])

p("C08", "Relative references resolve inside the parent's site and nowhere else",
  "Resolving a reference against a parsed parent URL gives: for text starting with http:// or https:// (any case) the same result as parsing it as an absolute URL; for a reference starting with '/' the parent's scheme and host followed by that path; otherwise the parent's directory followed by the reference; always with dot segments removed, the fragment dropped and the parent's domain, never leaving the parent's scheme and host. mailto: and javascript: references (any case) and references starting with '#' are refused, and with the same-domain flag an absolute reference to another domain is refused. A reference of 4 GB or more, or one that reaches 4 GB together with the site it is appended to, is refused. A refused reference leaves the object empty.",
  ["inputs"], "every reference text and length, every parent produced by absolute parsing, every flag combination",
  "no tests; the result depends on parent shape x reference shape x flags",
  ["coda/url_parser.cpp", "coda/url_parser.hpp"],
  [("merge of parent prefix and reference", "coda/url_parser.cpp: create_suburl"), ("dispatch and domain restriction", "coda/url_parser.cpp: create_relative")],
  observe=["coda_url::create_relative", "get_url", "get_domain"])

p("C09", "URL objects behave as independent values under any history",
  "In any sequence of constructing, parsing, copying, assigning (including to itself) and destroying URL objects, each object always reports the URL and domain of the value it was last given, independently of what happens to the others. Parsing into an object that already holds a URL, or parsing empty or missing text, or resolving against an empty parent, fails and leaves that object empty. All memory is released when the objects are destroyed.",
  ["histories"], "every finite sequence of operations over several URL objects",
  "no tests; ownership mistakes need particular copy/assign/fail sequences",
  ["coda/url_parser.cpp", "coda/url_parser.hpp"],
  [("deep copy in copy constructor and assignment", "coda/url_parser.cpp"), ("reset on failure", "coda/url_parser.cpp: coda_url::reset")],
  observe=["coda_url copy/assign/destroy", "empty", "allocated", "get_url", "get_domain"])

p("C10", "The cache never exceeds its size limit and evicts least recently set first",
  "After every operation the estimated sizes of the values held by a cache add up to no more than its size limit, the total it reports is exactly that sum, and a lookup returns the value last set for that key unless it was erased, evicted or expired. Elements leave only as needed, strictly in the order in which their keys were last set (setting an existing key makes it the newest), and a value larger than the limit is not retained. Erasing reports whether the key was present, a lookup that misses leaves the caller's value untouched, and the value a lookup points to stays there unchanged until its key is set, erased, evicted or found outdated. A copied or assigned cache holds the same elements in the same order and with the same ages, and what then happens to either does not touch the other.",
  ["histories"], "every sequence of set (new, existing, larger, smaller, oversized values), get, erase, copying, over any key and value types with a size estimate",
  "test_cache is a smoke test with two entries that never fills the cache",
  ["coda/cache.hpp", "coda/cache.tcc", "coda/estimate_capacity.hpp"],
  [("doubly linked age list through the hash map's elements", "coda/cache.tcc: set, erase"), ("eviction loop", "coda/cache.tcc: drop_last_unused"), ("size accounting", "coda/cache.tcc, coda/estimate_capacity.hpp")],
  [("size_cur", "sum of sizes of held elements", "coda/cache.hpp"), ("begp/endp", "oldest/newest element", "coda/cache.hpp")],
  observe=["coda_cache::get", "set", "erase", "dbg"])

p("C11", "Cached elements live exactly their allotted time",
  "With a lifetime limit of T seconds, a cached element is returned as long as no more than T seconds have passed since it was inserted or since the last set that asked for the time to be renewed, and is never returned later; a lookup that finds it outdated removes it and gives its space back. A set that does not ask for renewal changes the value but not the age. With a limit of zero elements never expire.",
  ["histories"], "every sequence of set (with and without renewal), get, erase and clock advance, every lifetime limit including zero",
  "test_cache sleeps through one expiry of one element and does not check the result",
  ["coda/cache.hpp", "coda/cache.tcc"],
  [("age test in both get functions", "coda/cache.tcc: get"), ("time stamp at insertion and renewal", "coda/cache.tcc: set, elem_t")],
  observe=["coda_cache::get", "set", "dbg"])

p("C12", "The thread queue delivers every item once, in order, and loses no wakeup",
  "Under every interleaving of producers and consumers, each added item is delivered to exactly one get (single or batch), in the order in which the adds took effect, and the size reported is the number of undelivered items. A non-waiting get fails only if the queue was empty at some moment during the call, and a batch get takes everything available, up to the requested number if that is positive. A waiting get blocks only while the queue is empty and no signal arrives: no consumer stays blocked while items are available, and signal() releases a waiting consumer even without an item (its get then fails).",
  ["schedules", "histories"], "every interleaving of threads calling add, get, batch get, size and signal, including spurious wakeups of the condition variable",
  "synque is header-only and not even compiled by the tests; the failures need specific interleavings",
  ["coda/synque.hpp"],
  [("mutex around every operation, condition signal on add", "coda/synque.hpp")],
  [("d", "the items, newest first", "coda/synque.hpp")],
  observe=["coda::synque add/get/signal/size"])

p("C13", "The shared-memory hash map is an exact bounded dictionary",
  "Through any sequence of insert, batch insert, read, erase, batch erase, clear, size, iteration, disconnect and reconnect by any number of connected handles, the map behaves as one dictionary shared by all of them: a read returns exactly the last value inserted for that 64-bit key, iteration visits every entry exactly once, and size is the number of entries. Inserting a new key succeeds exactly while fewer than the declared number of entries are held (erased space is reusable without limit) and a failed insert changes nothing; updating an existing key always succeeds. Batch operations act on every element and report whether all succeeded.",
  ["histories"], "every operation sequence over any number of handles, keys colliding in the hash table or not, capacities and hash sizes down to one",
  "shm_hash_map is header-only and neither compiled nor run by the tests",
  ["coda/shm_hash_map.hpp", "coda/shm_hash_map.tcc", "coda/shm_pool.hpp", "coda/shm_pool.tcc", "coda/shm_stack.hpp", "coda/shm_stack.tcc"],
  [("bucket chains by node index", "coda/shm_hash_map.tcc: unprotected_insert, unprotected_erase, unprotected_read"), ("node allocation with free list", "coda/shm_pool.tcc"), ("segment layout", "coda/shm_hash_map.tcc: attach, required_space")],
  observe=["shm::hash_map insert/read/erase/clear/size/begin/end/connect/disconnect"])

p("C14", "Shared hash map operations are atomic across processes and survive crashes",
  "Under every interleaving of processes operating on one shared hash map, each insert, erase, read, size, clear and batch call takes effect atomically: what the processes observe is explained by some sequential order consistent with real time, and values are never torn. Readers may overlap each other but never a writer. If a process dies at any point, even inside an operation, the others are not blocked and still read every entry whose insertion had completed and was not being changed by the dead process.",
  ["schedules", "crash_points"], "every interleaving of several processes' operations and every point at which one of them may die",
  "needs several processes, preemption inside critical sections and crashes; nothing of it is compiled by the tests",
  ["coda/shm_hash_map.hpp", "coda/shm_hash_map.tcc"],
  [("two-semaphore reader/writer lock with undo on exit", "coda/shm_hash_map.tcc: lock_read_rw, unlock_read_rw, lock_write_rw, unlock_write_rw")],
  observe=["shm::hash_map public operations under a controlled scheduler with simulated SysV IPC"])

p("C15", "Shared-memory connects refuse mismatches cleanly and release what they take",
  "Connecting a shared map, queue, pool or stack to existing shared memory laid out for a different item size, capacity, hash size or box geometry, or with an unusable key file or failing system call, raises an error without crashing and without altering the existing contents. After a failed connect no lock is left held, other users of the same memory carry on unhindered, and the same object can connect successfully later. Disconnecting or destroying a connected object unmaps its memory, and the contents remain for the next connect.",
  ["configurations", "histories", "fault_sequences"], "every pair of geometries, every sequence of connects and disconnects, every failing system call during connect",
  "no test connects anything; error paths need mismatched peers or failing calls",
  ["coda/shm_hash_map.tcc", "coda/shm_queue.tcc", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
  [("geometry check on attach", "coda/shm_hash_map.tcc: attach; coda/shm_queue.tcc: connect_shm; coda/shm_pool.tcc, coda/shm_stack.tcc: attach"), ("error unwinding", "coda/shm_hash_map.tcc: connect; coda/shm_queue.tcc: connect")],
  observe=["connect", "disconnect", "attach", "mappings and semaphore values in the simulated SysV IPC"])

p("C16", "The shared-memory queue carries boxes of items in FIFO order without damage",
  "Items a writer puts are packed into boxes in order; a box is handed over when it is flushed, explicitly or because the next item does not fit, and readers receive the flushed boxes in flush order, each exactly once, with exactly the items put in it in order. A ring declared with N boxes (1000 of 8192 bytes unless said otherwise) holds N-1: a flush that finds it full drops that one box and nothing else, and the number of waiting boxes reported is exact. An item larger than a box is refused, a reader finds no box when none is waiting, after waiting as long as it asked to (a tenth of a second if it does not say), and the twelve user registers hold what was last stored in them while other indices read zero and store nothing.",
  ["histories"], "every sequence of put, flush, unflush, get, register access, disconnect and reconnect by writers and readers, every box size and ring size, items of fixed and varying size",
  "shm_queue is header-only and neither compiled nor run by the tests",
  ["coda/shm_queue.hpp", "coda/shm_queue.tcc"],
  [("ring of boxes with start/end indices and a counting semaphore", "coda/shm_queue.tcc: flush, unflush"), ("box packing", "coda/shm_queue.tcc: box::put, box::get, box::is_space_for")],
  observe=["shm_queue::queue put/flush/unflush/get/boxes_in_queue/pages_used/set_register/get_register"])

p("C17", "The shared queue stays correct across concurrent processes, signals and death",
  "Under every interleaving of writer and reader processes, including system calls interrupted by signals, every box flushed into a non-full ring is received by exactly one reader, undamaged and in order, and operations on the ring and on the registers never overlap each other. No process waits forever while a box is available to it. If a process dies inside a queue operation, the other processes' operations still complete and the queue works on: boxes flushed afterwards arrive, in order, and at most the one box the dead process was busy with arrives late or is cut off.",
  ["schedules", "fault_sequences", "crash_points"], "every interleaving of several processes, every placement of EINTR in blocking semaphore calls, every point of death",
  "needs several processes with preemption and interrupted system calls; nothing of it is compiled by the tests",
  ["coda/shm_queue.tcc"],
  [("binary semaphore with undo around ring updates", "coda/shm_queue.tcc: lock_queue, unlock_queue"), ("counting semaphore of filled boxes", "coda/shm_queue.tcc: flush, unflush")],
  observe=["shm_queue::queue operations under a controlled scheduler with simulated SysV IPC"])

p("C18", "String storage is an exact dictionary from strings to stable user data",
  "After adding any set of strings in any order, adding or looking up a string returns the same zero-initialised data slot it was given the first time, slots of different strings never overlap and never move, and looking up a string that was never added finds nothing. Enumeration reports every stored string exactly once, spelled exactly as added, with its slot. A string is refused exactly when it does not fit in a storage block of 4096 bytes together with its data, its terminating zero and one byte of bookkeeping, and everything is freed at the end.",
  ["histories", "inputs"], "every sequence of strings of any length (long shared prefixes, prefixes of each other, non-ASCII bytes), every slot size",
  "test_stringstorage adds three strings and does not check what it prints",
  ["coda/stringstorage.c", "coda/stringstorage.h"],
  [("prefix-compressed sorted tree with binary search", "coda/stringstorage.c: internal_find_add"), ("append-only 4096-byte blocks", "coda/stringstorage.c"), ("reconstruction of keys from parent prefixes", "coda/stringstorage.c: string_storage_enumerate_recursive")],
  observe=["string_storage_add", "string_storage_find", "string_storage_enumerate", "string_storage_free"])

p("C19", "XML documents load into exactly the typed values they spell",
  "Loading a well-formed document into an object fills each declared member from the element or attribute of that name at that place: strings verbatim after entity and CDATA decoding, decimal numbers of every supported width over their full range, also with blanks around them, a plus sign or leading zeros, booleans from true/false, on/off, yes/no in any letter case and from numbers, where zero alone means false. Lists and vectors receive one item per occurrence in document order, nested objects are filled recursively, for a single member the last occurrence wins, and the text of an element without child elements is available under the empty name. Undeclared elements (also inside a value, before its text) and attributes, comments, whitespace between elements and the order of different members do not change any other member.",
  ["inputs", "configurations"], "every document generated from the declared structure with any values, order, repetition, encoding of characters and undeclared content",
  "test_txml loads one document with one vector",
  ["coda/txml.hpp", "coda/txml.cpp"],
  [("path stack matched against declared member names", "coda/txml.hpp: determineMember"), ("per-occurrence push into containers", "coda/txml.hpp: setValue for list and vector"), ("text conversion", "coda/txml.cpp: setValue, strtobool")],
  [("levels", "path of open elements (and current attribute)", "coda/txml.hpp"), ("current_value", "text collected since the last tag", "coda/txml.hpp")],
  observe=["txml_determination_object::load_from_string"])

p("C20", "XML loading rejects exactly the malformed and is independent of the source",
  "Loading raises an error exactly when the document is not well-formed XML (including truncated, empty and mismatched documents) or its file cannot be opened or read, and never crashes. The error names the file and, for a document, the line and column where it goes wrong. Loading from a zero-terminated string, from a string with a length and from a file gives the same values or the same rejection for the same bytes, whatever the document's size and however it falls on read boundaries. A failed load leaves no file open. What the loaded object's own code throws arrives at the caller as it is, and leaves no memory or file behind. Feeding a parser a document in pieces is the same as giving it whole.",
  ["inputs", "fault_sequences"], "every byte sequence, well-formed or not, of any size; every failing file operation",
  "no test loads a file or a malformed document",
  ["coda/txml.cpp", "coda/txml.hpp", "coda/error.hpp"],
  [("chunked reading", "coda/txml.cpp: load_from_file"), ("error raising from the parser", "coda/txml.cpp: parse, raise")],
  observe=["load_from_file", "load_from_string", "coda_error"])

p("C21", "Bounded string search and span functions agree with their naive definition",
  "For every buffer, length, character, needle and alphabet, the find-character, find-substring and span functions (exact and ignoring ASCII case, forward and from the end) return what a direct scan of exactly the given bytes returns: the first or last match inside the length or nothing, and the length of the longest leading or trailing run made of (or free of) the alphabet's characters. Bytes above 0x7F match only themselves. A null text contains nothing and a null needle is found like an empty one. No byte outside the given length is read.",
  ["inputs"], "every byte buffer (not necessarily zero-terminated), length, character, needle and alphabet",
  "no tests; 20 functions times boundary positions times byte classes",
  ["coda/string.c", "coda/string.h"],
  [("scan loops", "coda/string.c")],
  observe=["coda_strnchr", "coda_strxchr", "coda_revnchr", "coda_revxchr", "coda_strnchp", "coda_strxchp", "coda_stristr", "coda_strnstr", "coda_strxstr", "coda_str?spn", "coda_rev?spn", "coda_str?spc", "coda_rev?spc"])

p("C22", "Number parsing returns the exact value of every number and zero for non-numbers",
  "Converting a length-delimited text to an unsigned or signed 64-bit integer returns its exact value when it consists of decimal digits (after an optional '-' for the signed conversion) and the value is representable, and 0 when it contains any other character. Parsing a comma-separated list of numbers adds exactly the listed numbers to the set and nothing for pieces that are not numbers. Exactly the given bytes are read.",
  ["inputs"], "every byte buffer and length, the whole 64-bit range and its edges",
  "no tests",
  ["coda/string.h", "coda/string.cpp"],
  [("digit loop", "coda/string.h: coda_atou, coda_atoi"), ("list scan", "coda/string.cpp: coda_get_uint64set")],
  observe=["coda_atou", "coda_atoi", "coda_get_uint64set"])

p("C23", "Formatted output is exact at every length and limit",
  "Formatting into a string returns, appends or inserts exactly the characters the C library's formatter produces for the same format and arguments, whatever the length of the output (also when an argument is the text of the string appended to), and reports the number of characters added; arguments the formatter rejects add nothing and give -1. The limited variants add exactly the first N characters when the output is longer than the limit N and everything otherwise; inserting at a position keeps the text before and after it, and a position beyond the end is refused without change.",
  ["inputs"], "every formatted length (including around internal buffer sizes), every limit, every position, every prior content",
  "no tests; behaviour switches at internal buffer sizes no sample reaches",
  ["coda/string.cpp", "coda/string.hpp"],
  [("two-pass formatting with a fallback buffer", "coda/string.cpp: coda_strprintf, coda_strappend"), ("bounded formatting", "coda/string.cpp: coda_strnappend, coda_strnprintf")],
  observe=["coda_strprintf", "coda_strappend", "coda_strnappend", "coda_strnprintf"])

p("C24", "Splitting text loses nothing and invents nothing",
  "Splitting a text at any of a set of delimiter characters returns, in order, exactly the maximal delimiter-free pieces, all of them or only the non-empty ones as requested, so that without suppression the pieces and the delimiters between them reproduce the text; the zero-terminated and the length-delimited variants agree and the latter accepts any bytes. Splitting a comma list into a set yields exactly the set of its pieces. The word scanner steps through exactly the blank-separated words of a text.",
  ["inputs"], "every text, delimiter set, length and suppression flag",
  "no tests",
  ["coda/string.cpp", "coda/string.hpp", "coda/easy_parsing.cpp"],
  [("split loops", "coda/string.cpp: coda_split_string, coda_get_stringset"), ("word scan", "coda/easy_parsing.cpp: get_next_word")],
  observe=["coda_split_string", "coda_get_stringset", "get_next_word"])

p("C25", "Tone removal maps Vietnamese letters to their base and touches nothing else",
  "For every valid UTF-8 text, each precomposed Vietnamese vowel and each of the letters D/d with stroke (and Eth/eth) is replaced by its plain ASCII letter of the same case, combining marks U+0300 to U+036F are removed, and every other character is copied unchanged; the result needs no further removal when processed again. If the text is cut inside its last character, everything before is processed normally and the cut bytes are copied. For arbitrary bytes only the given bytes are read and the result is never longer than the input.",
  ["inputs"], "every sequence of Unicode code points in UTF-8, every cut, every byte string",
  "no tests; 134 letters in two forms plus all other code points",
  ["coda/vietnam.cpp", "coda/vietnam.hpp"],
  [("UTF-8 decoding and code point switch", "coda/vietnam.cpp: coda_remove_tones_utf8")],
  observe=["coda_remove_tones_utf8"])

p("C26", "Every enabled log message becomes exactly one correct line, in order",
  "A message whose level is at or above the configured severity appears in the log exactly once, as one line made of local date and time to the millisecond, level name, thread name (or thread id) and the formatted text, and a message below it leaves no trace; each thread's lines appear in its own order and lines of different threads are never mixed. Opening or rotating to a log file, creating missing parent directories, sends all later messages (and anything else written to standard error) to the end of that file, earlier lines staying where they were, and the caller's path is not modified; a log that cannot be opened leaves messages going where they went. The arguments mean what they mean at the call (errno included). The reporting macros add the error's number and text, give the error back (log_ret) or end the process as failed after the message is written (log_die). Level names are recognised by their initial letters in any case, unknown names meaning info.",
  ["histories", "schedules", "inputs"], "every sequence of messages, levels, threshold changes, thread names, file openings and rotations, from one or several threads",
  "no test uses the logger",
  ["coda/logger.c", "coda/logger.h", "coda/system.c"],
  [("level filter and single formatted write", "coda/logger.h: log_fmt"), ("append-mode redirection of standard error", "coda/logger.c: log_create"), ("per-thread name", "coda/logger.c: log_thread_name_set"), ("name table", "coda/logger.c: log_levels")],
  observe=["log_access..log_debug", "log_create", "log_rotate", "log_create_from_str", "log_levels", "log_thread_name_set"])

p("C27", "Signals set exactly their flag and masks block exactly the listed signals",
  "After signal initialisation, delivering any sequence of the handled signals never terminates or stops the process and sets exactly the flags documented for them: terminate for INT and TERM, change-config for HUP, rotate-log for USR1, change-binary for USR2, none for the ignored ones. With the no-restart initialisation a blocking system call is interrupted by a handled signal, with the plain one it goes on. Masking with a bit set of signal numbers blocks, unblocks or sets exactly the handled signals whose bits are given, and a signal delivered while blocked takes effect when unblocked.",
  ["histories", "configurations"], "every sequence of signals, masks and modes",
  "no tests",
  ["coda/daemon.c", "coda/daemon.h"],
  [("signal list expanded into handler, installation and mask", "coda/daemon.c: CODA_SIG_LIST")],
  observe=["coda_signal_init", "coda_signal_init_norestart", "coda_signal_mask", "coda_terminate", "coda_changecfg", "coda_rotatelog", "coda_changebin"])

p("C28", "At most one process at a time owns a pid file",
  "However many processes try to create the same pid file at the same moment and in whatever interleaving, at most one succeeds until it is removed, exactly one succeeds when nothing was there before, and the file then contains that process's id in decimal followed by a newline. An existing non-empty pid file is never overwritten, an empty leftover does not prevent a start, and a failed attempt leaves no descriptor open, and no attempt waits for another process. The file can be written by its owner only. After the owner's stop removes the file a new start succeeds.",
  ["schedules", "histories", "crash_points"], "every interleaving of the file operations of several starting and stopping processes, every state the file may be in beforehand, every failing file operation",
  "no tests; a past release had a race here and it needs a particular interleaving to show",
  ["coda/system.c", "coda/daemon.c"],
  [("exclusive non-blocking lock, then emptiness check, then write", "coda/system.c: coda_mkpidf"), ("removal", "coda/daemon.c: coda_daemon_stop")],
  observe=["coda_mkpidf", "coda_daemon_load", "coda_daemon_stop", "pid file contents"])

p("C29", "Broken-down UTC time is correct for every second",
  "For every non-negative time whose year fits an int the conversion gives the proleptic Gregorian calendar date in UTC: full year, month 1 to 12, day of month, hour, minute, second, and day of week with Sunday 0. Consecutive seconds give consecutive date-times across all month, year, leap-year and century boundaries.",
  ["inputs"], "every non-negative time_t up to the year range of int",
  "no tests; the calendar formula has exceptions a sample misses",
  ["coda/gmtime.h"],
  [("Gauss day-number formula", "coda/gmtime.h: coda_gmtime")],
  observe=["coda_gmtime"])

p("C30", "IPv4 text parsing is exact and the socket helpers carry bytes faithfully",
  "Parsing a length-delimited dotted quad returns the address in network order exactly when the text is four decimal octets from 0 to 255 separated by single dots, and the no-address value for every other text, reading only the given bytes. A connection made through the listen, connect and accept helpers transports every byte sequence unchanged, accept reports the peer's address, each socket is blocking or not as asked (any value but zero asks for non-blocking), a socket option is set to exactly the value given, as many clients as asked for may wait to be accepted, ports are decimal, an address can be listened on again as soon as its last server closed, receiving retries when interrupted by a signal, and sending to a peer that is gone is an error, not a signal. A failing system call is reported as an error without leaving a descriptor open, and a receive timeout of any number of microseconds takes effect.",
  ["inputs", "fault_sequences"], "every text and length; every message; every failing or interrupted system call",
  "socket.h is never compiled by the tests",
  ["coda/socket.h"],
  [("octet loop", "coda/socket.h: coda_inet_addr"), ("EINTR loop", "coda/socket.h: coda_unix_recv"), ("close on error", "coda/socket.h: coda_listen, coda_accept, coda_connect")],
  observe=["coda_inet_addr", "coda_listen", "coda_connect", "coda_accept", "coda_unix_send", "coda_unix_recv", "coda_set_socket_timeout", "coda_set_nonblk", "coda_set_sckopt"])

p("C31", "The shared pool and stack hand out every slot once and keep their contents",
  "In any sequence of allocations and frees through any handles attached to the same memory, the pool never hands out a slot that is in use, hands out exactly its declared number of slots before reporting exhaustion, reuses freed slots without limit, and reports the exact number in use. The stack returns pushed elements in last-in first-out order, refuses a push only when full, and reports its exact fill. A second handle attached to the same memory sees the same state, and clearing empties it.",
  ["histories"], "every sequence of allocate, free, push, pop, clear, detach and attach, every capacity",
  "shm_pool and shm_stack are header-only and never compiled by the tests",
  ["coda/shm_pool.hpp", "coda/shm_pool.tcc", "coda/shm_stack.hpp", "coda/shm_stack.tcc"],
  [("bump index plus free stack", "coda/shm_pool.tcc"), ("index arithmetic starting at -1", "coda/shm_stack.tcc")],
  observe=["shm::pool allocate/free/allocated_objects/clear/attach", "shm::stack push/pop/used/empty/clear/attach"])

p("C32", "File helpers create what they promise and leak no descriptors",
  "Creating the path of a file makes every missing parent directory (mode 755, less the process's mask) and nothing else, succeeds when they exist already, fails when a parent cannot be created, and leaves the caller's path text as it was. Moving or opening a file onto a descriptor number, whatever numbers are in use, makes exactly that number refer to the file (a created one has mode 644, less the mask) and leaves no other descriptor behind, whether it succeeds or fails (a move that fails leaves the source with its owner; a negative number means any). Mapping a non-empty file of any size shows exactly its bytes, mapping with a requested size resizes the file to it, an anonymous mapping is zero-filled, and no descriptor stays open, whichever step fails.",
  ["inputs", "histories", "fault_sequences"], "every path shape and prior directory state, every file size, every failing system call",
  "no tests; error paths need failing system calls",
  ["coda/system.c", "coda/system.h"],
  [("in-place component loop", "coda/system.c: coda_mkpath"), ("dup2 and close", "coda/system.c: coda_fdmove, coda_fdopen"), ("open, size, map, close", "coda/system.c: coda_mmap")],
  observe=["coda_mkpath", "coda_fdmove", "coda_fdopen", "coda_mmap", "coda_umap", "open descriptors of the process"])

p("C33", "Starting as a daemon detaches fully and options are read exactly",
  "Command-line options are read into the configuration file, pid file and detach setting exactly as given last, in short or long form and any order, whatever the configuration held before, and an unknown option or missing argument is reported; the usage text names the program and every option. Loading with the detach setting continues in a new session with standard input and output on the null device and an empty file mode mask, leaves standard error usable, writes the pid file with the id of the continuing process, and makes the original process exit successfully; without it the same process continues. Stopping removes the pid file, and load fails if the pid file is already owned or a step of the start fails.",
  ["inputs", "configurations", "histories"], "every argument vector and every combination of settings",
  "no tests start a daemon",
  ["coda/daemon.c", "coda/daemon.h", "coda/system.c"],
  [("option loop", "coda/daemon.c: coda_getopt_parse"), ("fork, setsid, redirect", "coda/daemon.c: coda_daemon_fork"), ("sequence of start steps", "coda/daemon.c: coda_daemon_load, coda_daemon_stop")],
  observe=["coda_getopt_parse", "coda_daemon_load", "coda_daemon_stop", "process and session ids", "descriptors 0-2"])

p("C34", "Random strings have the exact length and use the whole alphabet only",
  "A random string of any requested length consists of exactly that many characters, each taken from the given alphabet, for every alphabet of one or more arbitrary bytes. Every character of the alphabet can occur, with even frequency. Consecutive strings differ, processes that drew different seeds from the system make different strings, and seeding happens once per process and leaves no descriptor open.",
  ["inputs", "histories"], "every length, alphabet and history of earlier calls",
  "no tests",
  ["coda/string.cpp", "coda/random.c", "coda/random.h"],
  [("index by modulo", "coda/string.cpp: coda_random_string"), ("seed from the system's random device", "coda/random.c: coda_random_init")],
  observe=["coda_random_string", "coda_random_init"])

p("C35", "Logarithmic counters and size estimates follow their definition",
  "The logarithmic array keeps an independent, initially zero slot per power of two: a positive value selects the slot of its highest set bit, values beyond the last slot select the last one, and swapping exchanges the complete contents of two arrays. The size estimate of a number is its storage size, of a string or vector its object size plus the storage of its capacity, of a pointer the pointer's size, and of any other object what the object itself reports.",
  ["inputs", "histories"], "every value, array length and sequence of updates and swaps; every value of the supported types",
  "not compiled by the tests (log_array) or only for int (estimates)",
  ["coda/log_array.hpp", "coda/estimate_capacity.hpp"],
  [("shift loop", "coda/log_array.hpp: get_by_value"), ("overloads and specialisations", "coda/estimate_capacity.hpp")],
  observe=["coda::log_array get_by_value/get_at/swap", "estimate_capacity"])

p("C36", "Error objects keep exactly the message they were made with",
  "An error object's text is what the C library's formatter produces for the format and arguments it was made with, with the number and its system text appended where an error number is given, cut to 4095 bytes and never beyond the object. The text stays the same when the arguments change, when the object is copied, assigned, thrown, caught by any base, rethrown or handed to another thread. The text of an error number equals the system's for every number, stays valid while others are made in the same call, and can be asked for any number of times in one function and by any number of threads at once.",
  ["inputs", "histories", "schedules"], "every message length, format, number and history of copies and throws; every number of uses in a function that does not return, in every thread",
  "no tests; the cut, unknown numbers and the stack taken by thousands of uses in one function are out of reach of samples",
  ["coda/error.hpp", "coda/error.h"],
  [("fixed-size message", "coda/error.hpp: class coda_error"), ("number text", "coda/error.h: coda_strerror, coda_strerror_r"), ("appended number", "coda/error.hpp: coda_errno")],
  observe=["coda_error::what()", "coda_errno", "coda_strerror"])

p("C37", "A sleep lasts exactly as long as asked",
  "A sleep of any number of milliseconds from zero to the largest integer returns success only after that whole time and, when nothing disturbs it, always succeeds and lasts no longer than asked (but for the granularity of the clock). A sleep that a signal cuts short either goes on to its full time or is reported as interrupted, never as success. A negative time is not slept at all.",
  ["inputs", "fault_sequences"], "every number of milliseconds, every number and moment of signals",
  "no tests; times beyond seconds cannot be tested by waiting",
  ["coda/gmtime.h"],
  [("seconds and nanoseconds from milliseconds", "coda/gmtime.h: coda_msleep")],
  observe=["coda_msleep", "the calls it makes to the system"])

p("C38", "Memory helpers copy and clear exactly the bytes named",
  "Clearing an object, an array of a given number of elements or a given number of bytes sets exactly those bytes to zero, for every type and size, and nothing beside them. The copying helpers copy exactly the given number of bytes, leave the source and everything else as they are, and their values are the destination, the number of bytes, and the address just behind the copied bytes, so that they can be chained to concatenate.",
  ["inputs"], "every element type, count, size (beyond 4 GB too), expression and chain",
  "no tests; wrong only for particular sizes, types or expressions",
  ["coda/coda.h", "coda/string.h"],
  [("clearing macros", "coda/coda.h: coda_clrptr, coda_clrvec, coda_clrmem"), ("copying macros", "coda/string.h: coda_memcpy, coda_cpymsz, coda_cpymem")],
  observe=["coda_clrptr", "coda_clrvec", "coda_clrmem", "coda_memcpy", "coda_cpymsz", "coda_cpymem"])

p("C39", "Running out of memory or an exception damages nothing",
  "When an allocation fails inside an operation, that operation reports it in the way it has (no buffer, a negative or null result, an exception) or does without, and never crashes, leaks, gives a wrong result as if it were right, or leaves something half changed: string storages, caches, URL objects, texts and queues hold afterwards what they held before, or the completed result, and work on. The allocating encoders then give no buffer and the size of the block they needed. The same holds when copying an element into or out of a cache or a thread queue throws, and when a thread waiting in a thread queue is cancelled: nothing stays locked and no element is lost or doubled.",
  ["inputs", "fault_sequences", "histories"], "every operation of these parts, every allocation in it that fails (alone or with all later ones), every copy that throws, every cancelled waiter",
  "no test makes an allocation fail or an element throw",
  ["coda/base64.c", "coda/base58.c", "coda/stringstorage.c", "coda/cache.tcc", "coda/cache.hpp", "coda/synque.hpp", "coda/string.cpp", "coda/txml.cpp", "coda/url_parser.cpp", "coda/shm_queue.tcc"],
  [("allocation results checked", "coda/base64.c, coda/base58.c: *_alloc; coda/stringstorage.c: internal_find_add; coda/url_parser.cpp: create_absolute, create_relative, operator="), ("changes made after what may throw", "coda/cache.tcc: set; coda/string.cpp: coda_strnappend, coda_strnprintf"), ("lock given back however an operation ends", "coda/synque.hpp: locker"), ("exceptions kept from passing through expat", "coda/txml.cpp: cb_characters, cb_begelement, cb_endelement, parse_part")],
  observe=["return values and exceptions", "contents afterwards", "allocated blocks", "held locks"])

p("C40", "Processes that connect at the same moment share one map or queue",
  "Any number of processes may connect to the same shared map or queue at the same moment, whether it does not exist yet, was left empty or is in use, and disconnect and connect again: each gets connected to the same memory with all that is stored there, nothing that any of them stored or sent from then on is lost, damaged or received twice, no two of them are inside an operation together, and none waits forever. A process that dies at any point while connecting, also as the very first one in the middle of creating the memory, leaves it usable: the others connect and work.",
  ["schedules", "crash_points", "histories"], "every interleaving of the system calls and memory accesses of first and later connects with each other and with operations, every point of death",
  "needs several processes starting at once; nothing of it is compiled by the tests",
  ["coda/shm_hash_map.tcc", "coda/shm_queue.tcc", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
  [("creation of semaphores and memory", "coda/shm_hash_map.tcc, coda/shm_queue.tcc: connect_sem, connect_shm"), ("first user initialises", "coda/shm_hash_map.tcc, coda/shm_pool.tcc, coda/shm_stack.tcc: attach")],
  observe=["connect, disconnect and operations of shm::hash_map and shm_queue::queue under a controlled scheduler with simulated SysV IPC"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
