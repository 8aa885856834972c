#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
I = ["inputs"]; H = ["histories", "inputs"]

# ---------------------------------------------------------------- base: memory
p("B01", "Released memory is wiped; allocations keep their contents",
  "Every byte of a block obtained from the library allocator is overwritten before the block goes back to the system allocator, whether through free or through resize, and a resize keeps the old contents and (in the zeroing form) zero-fills the extension. Allocation-failure callbacks run newest first until one asks for a retry, and register, deregister and clear keep exactly the registered set.",
  ["inputs","histories","fault_sequences"], "all block sizes and contents, all resize sizes, all sequences of callback registration and allocation failures",
  "Tests allocate a few sizes and cannot look at a block after it was released, nor make malloc fail.",
  ["base/mem/m_mem.c"], [("size header + secure clear","M_free/M_mem_secure_clear"),("copying realloc","M_realloc_int"),("error callback stack","error_cbs")])
p("B02", "Memory search, compare and checksum functions are exact",
  "Equality, ordering, substring search from either end, containment, byte count and swap functions over memory blocks return what their definition says for every content and length and read only the given bytes. The block checksums (LRC, CRC-8, CRC-16, CRC-32) equal their bit-by-bit definition.",
  I, "all contents of two blocks, all lengths including zero and NULL",
  "Tests use a handful of fixed strings (the CRC check values and simple needles).",
  ["base/mem/m_mem.c"], [("byte loops and CRC tables","M_mem_eq/M_mem_mem/M_mem_memr/M_mem_calc_crc*")])
p("B03", "Endian conversion, bit tricks and integer rounding are exact",
  "Byte-order conversions are inverse to each other and place bytes as documented. Population count, power-of-two tests and rounding, log2, sign extension, digit count, nearest-multiple and decimal-place rounding and integer exponent return the mathematically defined value for every argument.",
  I, "all 8-, 16-, 32- and 64-bit arguments",
  "Tests sample a few dozen values of a 2^64 domain.",
  ["base/mem/m_endian.c","base/math/m_bithacks.c","base/math/m_round.c","base/math/m_prop.c","base/math/m_operator.c"], [("shift/mask arithmetic","M_swap*, M_uint64_*")])
p("B04", "Bounded random numbers stay in range",
  "Every number drawn from a range is at least the minimum and below the maximum, for every generator state, and no value of the range is unreachable. The generator is a deterministic function of its seed and a duplicated generator continues with the same sequence.",
  I, "all 128-bit generator states and all ranges", "Tests draw some numbers from one seed.",
  ["base/math/m_rand.c"], [("rejection/scaling of raw output","M_rand_range, M_rand_max")])
p("B05", "Decimal arithmetic is exact or reports that it is not",
  "A fixed-point operation (create, parse, add, subtract, multiply, divide, transform, reduce, to-integer) that reports success has the exact mathematical result, and one that cannot represent it reports truncation or overflow instead. Text conversion round-trips, and comparison is the order of the represented values.",
  I, "all coefficients and decimal counts of both operands, all rounding modes, all short numeric strings",
  "Tests check two tables of hand-picked values.",
  ["base/math/m_decimal.c","base/math/m_round.c"], [("overflow-checked integer scaling","M_decimal_*")])
# ---------------------------------------------------------------- base: strings
p("B06", "Integer parsing is exact and never wraps",
  "Converting text to a 32- or 64-bit integer succeeds exactly when the text is a number of the given base that fits the type, with the exact value and the position of the first unused character. Out-of-range input reports overflow and never succeeds with a wrapped value; a minus sign on an unsigned 64-bit parse negates modulo 2^64 as strtoull does.",
  I, "all strings up to the bound, all bases 2..36 and auto detection, all types",
  "Tests use hand-picked strings near the limits in a few bases.",
  ["base/data/m_str_num.c"], [("overflow check before multiply-add","M_str_to_uint64_ex and friends")])
p("B07", "Formatted printing is bounded, complete and matches the C format rules",
  "Formatting into a buffer never writes past the given size, always terminates when the size is not zero and returns the full length the result needs; formatting into a growing buffer gives the same bytes. Integers (flags, width), strings (width, precision) and characters are rendered as the C standard defines; integer precision is documented as unsupported.",
  I, "all integer values, flag and width combinations, strings with precision, all buffer sizes",
  "Tests compare a few hundred fixed cases with the platform printf.",
  ["base/data/m_str_fmt.c"], [("single formatter with counting output","M_vsnprintf/M_vbprintf/M_str_fmt")])
p("B08", "Bounded string copies never overflow and always terminate",
  "Copying, concatenating, replacing and justifying into a caller's buffer write only inside the given size and always leave a terminated string: a copy keeps the longest prefix that fits, a concatenation that does not fit changes nothing and fails, a justification is padded or truncated on the requested side. In-place edits (trim, case, delete spaces or newlines, replace character, bracket and quote removal, quoting) keep the string inside its own storage and produce the documented result.",
  I, "all strings up to the bound and all buffer sizes including zero",
  "Tests use a few fixed strings with comfortable buffers.",
  ["base/data/m_str.c"], [("size-limited copy loops","M_str_cpy, M_str_cpy_max, M_str_cat, M_str_justify_max, M_str_trim")])
p("B09", "String comparison is a consistent order and search is exact",
  "The string compare functions, plain, length-limited and case-insensitive, define a total order agreeing with the matching equality functions, and equality-at-start/end, character, substring and character-set searches return what their definition says. NULL behaves as the empty string where documented.",
  I, "all pairs (for transitivity: triples) of strings up to the bound",
  "Tests compare a short list of literal pairs.",
  ["base/data/m_str.c"], [("compare loops","M_str_cmpsort*, M_str_casecmpsort*, M_str_eq*")])
p("B10", "Character classification follows the ASCII tables",
  "Character classification, case mapping and digit conversion agree with the ASCII (C locale) definition for every byte and never depend on the process locale; whole-string classification holds exactly when every character is in the class.",
  I, "all 256 byte values, all short strings", "Tests check selected characters per class.",
  ["base/data/m_chr.c","base/data/m_str.c"], [("range predicates","M_chr_is*, M_str_is*")])
p("B11", "Splitting and joining strings are inverse",
  "Splitting text on a delimiter (plain, quoted, by string, by lines) returns pieces whose join with the delimiter is the text, honours the maximum piece count and quoting, and never reads outside the input. Joining string or integer lists and splitting again gives the list back.",
  I, "all strings up to the bound over text, delimiter, quote and escape characters", "Tests use a few literal rows.",
  ["base/data/m_str.c","base/list/m_list_str.c"], [("explode/implode","M_str_explode*, M_str_implode*, M_list_str_split/join")])
p("B12", "Wildcard matching implements the glob definition",
  "Glob matching, case-sensitive and not, accepts exactly the strings its pattern denotes (star, question mark, bracket classes with ranges and negation, escapes) and never reads past either string.",
  I, "all patterns and strings up to the bound", "Tests try a table of literal pairs.",
  ["base/data/m_str_patmatch.c"], [("recursive matcher","M_str_pattern_match")])
# ---------------------------------------------------------------- base: buffers, parsers
p("B13", "A growable buffer is exactly the sequence of bytes added to it",
  "After any sequence of appends, drops from the front, truncations, trims, fills, direct writes and formatted number appends, the content of a buffer is the byte sequence those operations define, its length is that sequence's length and it is terminated one past the end. Binary, BCD, hex, quoted and justified appends write exactly the documented rendering and fail without changing the buffer when the value does not fit.",
  H, "all sequences of up to the bounded number of operations with arbitrary arguments", "Tests run short fixed sequences.",
  ["base/data/m_buf.c"], [("length/offset bookkeeping and growth","M_buf_ensure_space, M_buf_drop")])
p("B14", "A byte parser never reads outside its data and accounts for every byte",
  "Every consume, read, truncate, peek and predicate operation acts only on the unread bytes, reports how many bytes it took, and advances length, offset, line and column by exactly these. A mark followed by a rewind restores the position, a failed read changes nothing, and appended data is seen after existing data.",
  H, "all contents up to the bound and all bounded sequences of parser operations", "Tests run a few fixed inputs through each call.",
  ["base/data/m_parser.c"], [("cursor + mark bookkeeping","M_parser_consume, M_parser_mark*")])
p("B15", "Numbers read from a parser have the exact value or the read fails",
  "Reading an ASCII, binary (either byte order), BCD or decimal number consumes exactly the digits or bytes it used and returns their exact value; input that is malformed, too short or does not fit fails and leaves the parser unchanged. A number appended to a buffer in one of these encodings is read back unchanged.",
  I, "all byte strings up to the bound, all lengths, bases and encodings", "Tests read a few literals.",
  ["base/data/m_parser.c","base/data/m_buf.c"], [("number decoders","M_parser_read_int/uint/uint_bcd/decimal")])
p("B16", "Bit buffers and bit parsers are inverse and bit-exact",
  "Bits added to a bit buffer, in any mix of single bits, fields, bit strings, fills and byte runs, come back in order from a bit parser at any alignment, and reads beyond the end fail without moving. Signed reads decode two's complement, one's complement and sign-magnitude exactly and range reads count runs of equal bits.",
  H, "all bit strings up to the bound and all splits into fields and reads", "Tests use fixed patterns.",
  ["base/data/m_bit_buf.c","base/data/m_bit_parser.c"], [("bit offset arithmetic","M_bit_buf_add*, M_bit_parser_read*")])
p("B17", "Base64, Base32 and hex encoding round-trip",
  "Decoding the encoding of any byte string gives the string back for every codec, with and without line wrapping, the encoded text is the RFC 4648 text, and size predictions are never smaller than what is written. Decoding arbitrary text never writes past the announced size and rejects characters outside the alphabet.",
  I, "all byte strings up to the bound, all wrap widths, arbitrary text for decoding", "Tests use the RFC vectors and a few literals.",
  ["base/bincodec/m_bincodec.c","base/bincodec/m_base64.c","base/bincodec/m_base32.c","base/bincodec/m_hex.c"], [("table codecs with size prediction","M_bincodec_*")])
p("B18", "UTF-8 handling accepts exactly well-formed text",
  "A byte sequence is accepted exactly when it is well-formed UTF-8 (no overlong forms, surrogates, code points above U+10FFFF or truncated sequences), and encoding a code point and decoding it are inverse. Iterating, counting and indexing characters never read past the terminator and agree with each other.",
  I, "all byte strings up to the bound and all 2^32 code point values", "Tests use a table of samples.",
  ["base/utf8/m_utf8.c","base/utf8/m_utf8_check.c"], [("decoder state tests","M_utf8_get_cp, M_utf8_from_cp")])
p("B19", "Unicode case mapping and classes are consistent",
  "For every code point the class predicates agree with each other (upper, lower and number or letter classes imply the alphanumeric one), and case mapping is stable: mapping twice equals mapping once and a mapped character is in no conflicting class. The string functions apply exactly the per-character result.",
  I, "all code points", "Tests check some characters.",
  ["base/utf8/m_utf8_case.c","base/utf8/m_utf8_check.c","base/utf8/m_utf8_tables.c"], [("sorted tables + binary search","M_utf8_toupper_cp, M_utf8_is*_cp")])
p("B20", "Pattern-list, bit-list and option-list codecs are inverse",
  "A bit mask rendered as a named list and parsed again gives the mask back for every mask and table, unknown names are rejected unless explicitly allowed, and single-flag conversions are mutually inverse.",
  I, "all masks and all short list strings", "No dedicated test.",
  ["base/data/m_bitlist.c"], [("list rendering/parsing","M_bitlist_list/M_bitlist_parse")])
# ---------------------------------------------------------------- base: containers
p("B21", "A hashtable is exactly the map its operations define",
  "After any sequence of insert, replace, remove, multi-value and merge operations a lookup returns the value last stored for the key under the key equality of the table, size and enumeration list exactly the stored pairs once, and this does not depend on hash values, collisions or growth. Ordered and sorted tables enumerate in insertion or key order, and duplicates are equal and independent.",
  H, "all bounded operation sequences, keys, seeds and hash functions", "Tests use a few fixed keys and a fixed sequence.",
  ["base/hash/m_hashtable.c"], [("chained buckets with rehash","M_hashtable_insert/M_hashtable_rehash")])
p("B22", "Typed hashtables own their data exactly once",
  "The typed tables (string, integer and binary keys and values, multi-type) copy what they store and return the exact key's value with the exact length, and free every stored value exactly once on overwrite, removal or destruction, with nothing leaked.",
  H, "all bounded operation sequences on each typed table", "Tests insert and read fixed pairs; leaks are not looked at.",
  ["base/hash/m_hash_dict.c","base/hash/m_hash_strvp.c","base/hash/m_hash_strbin.c","base/hash/m_hash_u64vp.c","base/hash/m_hash_u64bin.c","base/hash/m_hash_u64str.c","base/hash/m_hash_u64u64.c","base/hash/m_hash_stru64.c","base/hash/m_hash_stridx.c","base/hash/m_hash_multi.c"], [("duplicate/free callbacks","M_hash_*_create")])
p("B23", "Dictionary serialisation round-trips",
  "Serialising a dictionary with any delimiters, quoting and escape rule and parsing the text gives an equal dictionary whenever serialisation succeeds, and parsing arbitrary text never reads outside it and either fails or yields a dictionary.",
  I, "all dictionaries up to the bound over plain, delimiter, quote and escape characters, all flag sets", "Tests round-trip a few literals.",
  ["base/hash/m_hash_dict.c"], [("quote/escape/hex encoding","M_hash_dict_serialize/M_hash_dict_deserialize")])
p("B24", "Array lists keep exactly the inserted values in order",
  "After any sequence of inserts, removals, takes, replacements, swaps and range or duplicate removals, a list holds exactly the values a reference sequence holds: at the requested positions when unsorted and in comparator order, equal values in insertion order, when sorted. Index, count and membership queries agree with that content and each owned value is freed once.",
  H, "all bounded operation sequences, values, sort and stack modes", "Tests run short fixed sequences.",
  ["base/list/m_list.c","base/list/m_list_u64.c","base/list/m_list_str.c","base/list/m_list_bin.c"], [("gap array with sorted insert","M_list_insert/M_list_remove_at")])
p("B25", "Linked lists keep exactly the inserted values in order",
  "After any sequence of inserts (plain, before, after, first), moves, takes and removals, walking a linked list forwards and backwards visits exactly the values a reference sequence holds, sorted when the list is sorted, and length and find agree with the walk.",
  H, "all bounded operation sequences on plain, sorted and circular lists", "Tests run short fixed sequences.",
  ["base/list/m_llist.c","base/list/m_llist_u64.c","base/list/m_llist_str.c","base/list/m_llist_bin.c"], [("node links and skip levels","M_llist_insert/M_llist_take_node")])
p("B26", "Sorting sorts, stably where promised, and binary search finds",
  "Both sort functions return a permutation of the input in comparator order, the merge sort keeping equal elements in their order. Binary search finds an equal element exactly when one exists and the insertion index keeps the array sorted (after existing equals).",
  I, "all arrays up to the bound of arbitrary keys", "Tests sort only indirectly through lists.",
  ["base/sort/m_sort_qsort.c","base/sort/m_sort_mergesort.c","base/sort/m_sort_binary.c","base/sort/m_sort_compar.c"], [("generic sorts","M_sort_mergesort, M_sort_qsort, M_sort_binary_*")])
p("B27", "Queues deliver in order and caches evict the least recently used",
  "A queue returns each inserted member exactly once, in insertion or comparator order, and supports removal of any member. A cache never holds more than its maximum, always returns the value last inserted for a key it still holds, and evicts the least recently used entry first, also when its maximum is lowered.",
  H, "all bounded operation sequences", "Tests run one short sequence each.",
  ["base/data/m_queue.c","base/cache/m_cache.c","base/cache/m_cache_strvp.c"], [("list + hashtable pairing","M_queue_*, M_cache_*")])
p("B28", "Length-prefixed binary wrapping is inverse to unwrapping",
  "Wrapping any bytes and unwrapping them returns the same bytes and length, and the copying forms are independent of their source.",
  I, "all contents and lengths up to the bound", "No dedicated test.",
  ["base/data/m_bin.c"], [("length header","M_bin_wrap*/M_bin_unwrap*")])
p("B29", "A state machine runs its states in the defined order and always cleans up",
  "For every state graph and every result the states return, a state machine runs states in the defined or requested order, returns wait, done or error as the last state decided, and runs the cleanup of every entered state exactly as its reason filter says. Reset and descriptor queries reflect the active state.",
  H, "all bounded graphs of states, sub machines and cleanup machines and all return codes", "Tests run a few fixed graphs.",
  ["base/data/m_state_machine.c"], [("sorted state table and descent list","M_state_machine_run")])
p("B30", "Command line parsing accounts for every argument",
  "Parsing a command line reports each option with exactly its typed value, rejects unknown options, missing values and malformed integers or decimals, and passes every remaining argument to the non-option callback in order.",
  I, "all short argument vectors over the registered option set", "Tests run fixed command lines.",
  ["base/data/m_getopt.c","base/data/m_getopt_parse.c"], [("option tables and parser","M_getopt_parse")])
# ---------------------------------------------------------------- base: time, fs
p("B31", "Calendar conversion is an exact bijection",
  "Converting seconds since the epoch to a UTC calendar date and back is the identity over the supported range, the calendar fields are the proleptic Gregorian ones with the right weekday and day of year, and an out-of-range calendar date normalises to the same instant.",
  I, "all instants and all field values within the stated range", "Tests convert a handful of dates.",
  ["base/time/m_time_gm.c","base/time/m_time.c"], [("day-count arithmetic","M_time_togm/M_time_fromgm/M_time_normalize_tm")])
p("B32", "Zone conversion round-trips and follows the zone's rules",
  "For every zone built from a POSIX rule string, the local time of an instant has the offset and DST flag its rules give at that instant, and converting the local time back gives the instant, except inside the ambiguous or skipped hour of a transition.",
  I, "all instants of the stated years under each zone shape", "Tests convert a few instants in a few zones.",
  ["base/time/m_time_tz_posix.c","base/time/m_time_tz_rule.c","base/time/m_time_tz_dst_rules.c","base/time/m_time_local.c","base/time/m_time_gm.c"], [("DST rule adjustment","M_time_tz_rule_load, M_time_tolocal/M_time_fromlocal")])
p("B33", "Date and time parsing returns exactly what the text says",
  "Parsing date or time text against a format consumes exactly the described characters, yields the fields the text spells, and rejects text whose fields are not digits of the required width or are out of range, never reading past the end of the text or format.",
  I, "all texts up to the bound for each format element", "Tests run a table of literals.",
  ["base/time/m_time_parse.c"], [("format interpreter","M_time_parsefmt/M_time_parsedate")])
p("B34", "Elapsed-time arithmetic is monotone and exact",
  "The difference between two instants is within one millisecond of exact (exact for whole milliseconds), antisymmetric, additive and never negative for ordered instants; elapsed time follows the monotonic clock (or the wall clock when that fails) and is never negative; conversion to the system's time value keeps seconds and microseconds.",
  I, "all pairs of instants within the stated range", "Tests time real sleeps.",
  ["base/time/m_time_elapsed.c","base/time/m_time.c"], [("timeval arithmetic","M_time_timeval_diff, M_time_elapsed")])
p("B35", "Path normalisation is lexically correct and idempotent",
  "Splitting, joining, dirname, basename and normalising of paths treat repeated separators, dot and dot-dot components as the file system would without symlinks, never let dot-dot climb above the root of an absolute path, and normalising twice equals normalising once. No operation reads or writes outside its buffers.",
  I, "all Unix path strings up to the bound over separator, dot and name characters", "Tests run tables of paths.",
  ["base/fs/m_fs_path.c","base/fs/m_fs_path_norm.c"], [("component list processing","M_fs_path_norm, M_fs_path_join_parts")])
p("B36", "File permission changes touch exactly the named bits",
  "Applying a permission object to a file or directory changes exactly the bits it names for user, group and other (exact, add, remove, directory overrides) and the owner it names; converting a system mode to an object and back is inverse; setting, unsetting, duplicating and merging objects follow their documented rules and lose nothing.",
  I, "all permission objects against all modes", "Tests check a few strings through real files.",
  ["base/fs/m_fs_perms.c","base/fs/m_fs_perms_unx.c","base/fs/m_fs_info_unx.c"], [("bit sets per subject","M_fs_perms_set_perms, M_fs_perms_merge")])
# ---------------------------------------------------------------- formats
p("F01", "JSON reading accepts the JSON language and never misreads",
  "Reading arbitrary text never accesses memory outside it, accepts JSON values with the value the text denotes, and rejects malformed text with an error position inside the text; the number of processed bytes is exact when more data is allowed.",
  I, "all texts up to the bound for each flag set", "Tests read fixed documents.",
  ["formats/json/m_json_reader.c","formats/json/m_json.c"], [("recursive descent reader","M_json_read")])
p("F02", "JSON writing and reading are inverse",
  "Writing any JSON tree and reading the text back gives an equal tree in every style, including all control, quote, backslash and non-ASCII characters in strings and keys and all integer values. Tree edits (insert, take, replace) leave every other value as it was.",
  H, "all trees up to the bound with arbitrary string bytes and integers, all writer flags", "Tests round-trip fixed documents.",
  ["formats/json/m_json_writer.c","formats/json/m_json_reader.c","formats/json/m_json.c"], [("escaping and indentation","M_json_write")])
p("F03", "XML text escaping is inverse to unescaping",
  "Encoding any text, attribute or tag data and decoding it returns the text, encoded text contains no raw markup characters, and decoding arbitrary text never reads or writes outside its buffers.",
  I, "all texts up to the bound, all flag sets", "Tests use a list of literals.",
  ["formats/xml/m_xml_entities.c"], [("entity tables","M_xml_entities_encode/M_xml_entities_decode")])
p("F04", "XML reading is memory-safe and inverse to writing",
  "Reading arbitrary text either fails with a position inside it or yields a tree, and never accesses memory outside the text; writing a tree and reading it back gives the same elements, attributes and text.",
  I, "all texts up to the bound and all small trees with arbitrary text", "Tests read fixed documents.",
  ["formats/xml/m_xml_reader.c","formats/xml/m_xml_writer.c","formats/xml/m_xml.c"], [("reader/writer","M_xml_read/M_xml_write")])
p("F05", "CSV parsing follows RFC 4180 and round-trips",
  "Parsing returns exactly the rows and cells the text denotes, including quoted delimiters, quotes and newlines, never reads outside the text, and writing cells out and parsing again returns the same cells.",
  I, "all texts up to the bound over delimiter, quote, newline and plain characters, all flags", "Tests parse fixed tables.",
  ["formats/csv/m_csv.c"], [("in-place cell splitter","M_csv_parse, M_csv_output_*")])
p("F06", "INI reading, writing and editing keep every key",
  "Reading a written INI gives the same sections, keys and values, edits change only the named key, and reading arbitrary text is memory-safe and reports errors by line.",
  H, "all texts up to the bound and all bounded edit sequences", "Tests use fixed files.",
  ["formats/ini/m_ini.c","formats/ini/m_ini_reader.c","formats/ini/m_ini_writer.c","formats/ini/m_ini_kvs.c"], [("element list + key/value store","M_ini_read/M_ini_write/M_ini_kv_*")])
p("F07", "INI merging keeps user changes and takes upstream additions",
  "Merging a current, a new and an optional original INI yields for each key the value the documented conflict rules select, and no key that exists in an input and is not removed by the rules is lost.",
  ["inputs","configurations"], "all combinations of presence and values of a key in the three inputs, all conflict flags", "Tests merge a few fixed files.",
  ["formats/ini/m_ini_merger.c"], [("three-way merge","M_ini_merge")])
p("F08", "HTTP message framing does not depend on how data arrives",
  "Feeding an HTTP message to the reader in any split into pieces produces the same start line, headers, body and trailer callbacks as feeding it whole, consumes exactly the message, and ends with the same result.",
  I, "all split points of messages with symbolic content", "Tests feed fixed messages whole or byte by byte.",
  ["formats/http/m_http_reader.c"], [("resumable step machine","M_http_reader_read")])
p("F09", "HTTP reading is memory-safe and delimits bodies exactly",
  "Reading arbitrary bytes never accesses memory outside them; a body delimited by Content-Length or by chunking is delivered exactly, and conflicting, negative, overflowing or malformed lengths and versions are rejected rather than guessed.",
  I, "all byte strings up to the bound in each framing position", "Tests read fixed messages.",
  ["formats/http/m_http_reader.c","formats/http/m_http_simple_reader.c","formats/http/m_http_header.c","formats/http/m_http_headers.c","formats/http/m_http_chunk.c"], [("framing decisions","M_http_reader_read_*")])
p("F10", "HTTP query and form data encoding round-trips",
  "Encoding a set of arguments as a query or form string and parsing it gives the same arguments for every byte content, and method, version and status conversions are mutually inverse.",
  I, "all keys and values up to the bound", "Tests use fixed arguments.",
  ["formats/http/m_http.c","formats/http/m_http_uri.c"], [("percent coding","M_http_generate_query_string/M_http_parse_query_string")])
p("F11", "A written HTTP message reads back as itself",
  "A request or response produced by the simple writer is read by the simple reader with the same method, path, arguments, host, code, headers and body, and header data cannot introduce additional header lines.",
  I, "all small header values and bodies", "Tests use fixed messages.",
  ["formats/http/m_http_simple_writer.c","formats/http/m_http_simple_reader.c"], [("writer/reader pair","M_http_simple_write_*")])
p("F12", "URL splitting covers the URL exactly and safely",
  "Parsing a URL is memory-safe for arbitrary text and on success returns components that are exactly the substrings between the RFC 3986 delimiters, with a port between 0 and 65535.",
  I, "all texts up to the bound", "Tests parse fixed URLs.",
  ["formats/url/m_url.c","formats/url/url_parser.c"], [("character state machine","http_parser_parse_url")])
p("F13", "Email address and header handling round-trips and is safe",
  "Splitting an address into group, name and address and writing it out are inverse for well-formed input, arbitrary address and header text is handled without reading outside it, and a written email reads back with the same headers, recipients and parts.",
  I, "all address texts up to the bound and small messages", "Tests use fixed messages.",
  ["formats/email/m_email.c","formats/email/m_email_common.c","formats/email/m_email_reader.c"], [("address parser","M_email_process_address")])
p("F14", "Configuration values respect their declared limits",
  "A registered configuration value ends up as the parsed text when it is a valid number inside the declared limits and as the declared default when the key is missing; values out of range or malformed make parsing fail (or fall back) as declared, for every integer width and sign, size and boolean.",
  I, "all value texts up to the bound, all limits", "Tests use fixed ini files.",
  ["formats/conf/m_conf.c"], [("range-checked registration","M_conf_register_*")])
p("F15", "Tables keep cells attached to their row and column",
  "After any sequence of column and row inserts, moves, removals and cell edits, every remaining cell is found under its column and row with the value last set, and loading and writing CSV, JSON and Markdown round-trip the content.",
  H, "all bounded operation sequences", "Tests run fixed tables.",
  ["formats/table/m_table.c","formats/table/m_table_csv.c"], [("column ids + row dictionaries","M_table_*")])
p("F16", "Settings keys split and join reversibly",
  "Full setting keys joined from a group and a key split back into the same parts, and stored values, groups and keys are listed exactly.",
  I, "all key strings up to the bound", "Tests use fixed keys.",
  ["formats/settings/m_settings.c","formats/ini/m_ini.c"], [("key splitting","M_settings_full_key/M_settings_split_key")])
# ---------------------------------------------------------------- text
p("T01", "Single-byte code pages convert exactly both ways",
  "For every supported single-byte code page, decoding each byte gives the code point the code page assigns and encoding that code point gives the byte back; unmapped characters are reported, replaced or ignored as the error handling asks and never mis-mapped.",
  I, "all bytes and code points of each code page", "Tests cover UTF-8 and a few samples.",
  ["text/textcodec/m_textcodec_cp_map.c","text/textcodec/m_textcodec.c"], [("mapping tables","M_textcodec_encode/decode_cp_map")])
p("T02", "Percent, quoted-printable and Punycode coding round-trip",
  "Percent coding (URL and form variants), quoted-printable and Punycode/IDNA encoding are undone by decoding for every text, encoded output uses only the safe alphabet and respects line limits, and decoding arbitrary input is memory-safe.",
  I, "all texts up to the bound", "Tests use fixed samples.",
  ["text/textcodec/m_textcodec_percent.c","text/textcodec/m_textcodec_quoted_printable.c","text/textcodec/m_textcodec_punycode.c"], [("codec loops","M_textcodec_encode/decode_*")])
p("T03", "Regular expressions match exactly the language they denote",
  "For every supported operator, a compiled expression matches exactly the strings its language contains, search finds the leftmost match, and reported match offsets lie inside the text and delimit matching text.",
  I, "all texts up to the bound for a family of expressions covering the operators", "Tests run tables of literals.",
  ["text/re/m_re.c","text/re/m_re_match.c","text/re/mtre/regcomp.c","text/re/mtre/regexec.c"], [("TNFA compile and parallel match","mtre_compile/mtre_match")])
p("T04", "Address and domain validation accepts only what the rules allow",
  "Domain and email address validation accepts exactly texts made of the allowed characters within the length and placement rules, without reading outside the text.",
  I, "all texts up to the bound", "Tests use lists of literals.",
  ["text/verify/m_verify.c"], [("character rules","M_verify_email_address/M_verify_domain")])
# ---------------------------------------------------------------- io, net, tls, log, sql, thread
p("I01", "Proxy protocol headers parse exactly and safely",
  "A version 1 or 2 proxy header written for any endpoints is read back with the same addresses, ports and kind, any split of the header over reads gives the same result, bytes after it are left for the application, and malformed headers are rejected without reading outside the data.",
  I, "all header bytes up to the bound and all endpoints", "No test.",
  ["io/m_io_proxy_protocol.c"], [("header codec","proxy_protocol_*")])
p("I02", "IP address text conversion round-trips",
  "An IP address converted from text to binary and back denotes the same address, text that is not an address is rejected, and output never exceeds the caller's buffer.",
  I, "all 32- and 128-bit addresses, all short texts", "No dedicated test.",
  ["io/net/m_dns.c","io/net/m_io_net.c"], [("pton/ntop wrappers","M_io_net_ipaddr_to_bin, M_dns_pton")])
p("I03", "The write/read buffer layer neither loses nor reorders bytes",
  "Through the buffering layer every byte written comes out below in order exactly once, and every byte arriving is delivered above in order exactly once, for any partial write or read by the layer below, and buffered amounts never exceed the configured limits.",
  ["histories","fault_sequences"], "all bounded sequences of writes, reads and lower-layer results", "Tests run over loopback sockets.",
  ["io/m_io_buffer.c","io/m_io.c"], [("bounded buffers","M_io_add_buffer")])
p("I04", "Bandwidth shaping never exceeds the configured rate",
  "With a throttle configured, the bytes let through in any accounting period never exceed the configured rate for that period, and data is neither lost nor reordered, whatever the clock and the sizes of the operations.",
  ["histories","inputs"], "all bounded sequences of clock advances and operation sizes", "One test measures a real transfer with tolerance.",
  ["io/m_io_bwshaping.c"], [("sampling window accounting","M_io_bwshaping_*")])
p("I05", "Timers fire in due order, never early and never after removal",
  "Over any sequence of timer add, start, stop, reset, adjust, remove and clock advances, a timer fires only when due, due timers fire in order of due time, fire counts and end times are respected, and a stopped or removed timer does not fire.",
  ["histories","schedules"], "all bounded operation sequences and clock values", "Tests run real timers with tolerances.",
  ["io/m_event_timer.c"], [("sorted timer queue","M_event_timer_process/minimum_ms")])
p("I06", "Stream and event I/O deliver data reliably across real sockets",
  "Data written to a connected stream object arrives at the peer complete and in order, and each state change is delivered as exactly one matching event, whatever the readiness pattern of the operating system.",
  ["schedules","fault_sequences"], "all OS readiness and partial-transfer patterns", "Tests use live loopback sockets.",
  ["io/m_io.c","io/m_event.c","io/net/m_io_net.c"], [("layered callbacks and soft events","M_io_layer_*, M_event_*")])
p("N01", "SMTP replies and message bodies are framed exactly",
  "Multi-line SMTP replies are recognised exactly at their last line for any split of the data, and a message body containing any bytes is transmitted so that the receiver recovers exactly it (dot stuffing, terminator).",
  I, "all reply texts and bodies up to the bound, all split points", "Tests talk to an emulator with fixed messages.",
  ["net/smtp/m_flow_tcp_smtp_response.c","net/smtp/m_flow_tcp_sendmsg.c"], [("reply accumulator and dot stuffing","M_net_smtp_flow_tcp_*")])
p("X01", "TLS host name checks accept only names the certificate covers",
  "A host name is accepted exactly when it equals a certificate name case-insensitively or, where wildcards are allowed, when the certificate name is a wildcard whose star covers exactly one non-empty left-most label; no other pattern placement matches.",
  I, "all pairs of host name and certificate name up to the bound", "No unit test reaches the matcher.",
  ["tls/m_tls_hostvalidate.c"], [("label-wise matcher","M_tls_verify_host")])
p("X02", "TLS protocol sets convert to text and back",
  "Every set of TLS protocol versions rendered as text parses back to the same set, and parsing accepts exactly the documented names, separators and 'or later' forms.",
  I, "all protocol masks and all short texts", "One test covers a few strings.",
  ["tls/m_tls.c"], [("name table","M_tls_protocols_to_str/from_str")])
p("X03", "TLS connections verify peers and carry data intact",
  "A client with verification enabled completes a handshake only with a peer presenting a valid chain for the requested name, and application data is carried intact and in order.",
  ["fault_sequences","schedules"], "all peers, chains and network behaviours", "Tests run a few handshakes.",
  ["tls/m_tls.c","tls/m_tls_clientctx.c"], [("OpenSSL wrapper","M_io_tls_client_add")])
p("L01", "Log messages reach exactly the modules that accept them",
  "A message is delivered, completely and in order, to exactly the modules whose accepted tags include its tag and whose filter accepts it, an in-memory log never exceeds its size and keeps the newest messages, and a suspended log delivers again after resume.",
  H, "all tag masks, message sequences and sizes up to the bound", "No unit test.",
  ["log/m_log.c","log/m_log_membuf.c","log/m_log_common.c"], [("tag mask dispatch","M_log_write")])
p("L02", "The asynchronous writer keeps order and its size limit",
  "Messages handed to the asynchronous writer come out in order, whole and at most once, and when the size limit is reached whole oldest messages are dropped so the queued bytes never exceed the limit.",
  ["schedules","histories"], "all interleavings of writers and the writer thread for bounded sequences", "No unit test.",
  ["log/m_async_writer.c"], [("bounded locked queue","M_async_writer_write")])
p("S01", "SQL result and bind values convert exactly or fail",
  "A bound or fetched SQL value read as another type yields the exact value or an error, never a wrapped or truncated one, NULLs stay NULL, and each row and column keeps its own value for any sequence of binds.",
  H, "all bounded sequences of binds/results with arbitrary values", "Tests bind a few values through SQLite.",
  ["sql/m_sql_stmt_bind.c","sql/m_sql_stmt_result.c"], [("typed cells","M_sql_stmt_bind_*, M_sql_stmt_result_*")])
p("S02", "SQL table data fields convert exactly and report changes exactly",
  "A table data field set as one type and read as another yields the exact value or fails, and the field filters accept exactly the documented characters and numbers.",
  I, "all field types and values", "Tests use a few rows.",
  ["sql/m_sql_tabledata.c"], [("typed field store","M_sql_tabledata_field_*")])
p("S03", "Query rewriting preserves quoted text and parameters",
  "Rewriting a query for a database (placeholders, terminators, row locks, bit operations, limits) changes only the placeholders outside quoted text, keeps their number and order, and is memory-safe for any query text.",
  I, "all query texts up to the bound, all format flags", "Tests run fixed queries through SQLite.",
  ["sql/m_sql_driver_helper.c","sql/m_sql_query.c"], [("query formatter","M_sql_driver_queryformat")])
p("S04", "Connection pools and transactions are all-or-nothing",
  "A transaction function's statements commit together or not at all, retryable failures are retried from the start, and a pooled connection is used by one caller at a time and always returned.",
  ["schedules","fault_sequences"], "all failure points and thread interleavings", "Tests run SQLite transactions.",
  ["sql/m_sql_connpool.c","sql/m_sql_trans.c"], [("pool accounting and retry loop","M_sql_trans_process")])
p("H01", "The emulated read/write lock excludes writers from everyone",
  "Under any interleaving of lock and unlock calls, a writer holds the lock alone, readers may share it only with readers, every waiter is eventually let in when the holders leave, and no interleaving deadlocks.",
  ["schedules"], "all interleavings of a bounded number of threads and operations", "Tests run threads on real schedules.",
  ["thread/m_thread_rwlock_emu.c"], [("counters + condition variables","M_thread_rwlock_emu_*")])
p("H02", "Thread pools run every task exactly once",
  "Under any interleaving every dispatched task runs exactly once, a parent wait returns only after all its tasks have finished, and destruction neither loses queued tasks nor deadlocks.",
  ["schedules"], "all interleavings of bounded tasks and workers", "Tests run threads on real schedules.",
  ["thread/m_threadpool.c"], [("locked queue and counters","M_threadpool_*")])
p("H03", "Thread pipelines keep task order through every step",
  "Under any interleaving a pipeline runs each task through every step in order, finishes tasks in insertion order, and after a failing step aborts all later work and calls each task's finish callback exactly once.",
  ["schedules","fault_sequences"], "all interleavings and failing steps for bounded tasks", "Tests run threads on real schedules.",
  ["thread/m_thread_pipeline.c"], [("per-step queues","M_thread_pipeline_*")])
p("H04", "Atomic operations compute exactly and return the prior value",
  "Atomic add, subtract, increment, decrement and compare-and-swap update memory with the wrapped exact result, return the documented prior value or success, and lose no update under any interleaving.",
  ["inputs","schedules"], "all operand values, all interleavings of two threads", "Tests count with real threads.",
  ["thread/m_atomic.c"], [("compiler atomics","M_atomic_*")])
p("H05", "Mutexes, conditions and TLS keep their guarantees in both thread models",
  "Under any interleaving mutexes exclude, condition waits release and re-acquire their mutex and return only when signalled or timed out, and thread-local values are per thread with destructors run once.",
  ["schedules"], "all interleavings", "Tests run threads on real schedules.",
  ["thread/m_thread.c","thread/m_thread_coop.c","thread/m_thread_tls.c"], [("coop scheduler / pthread wrapper","M_thread_*")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
