# ---- thread ---------------------------------------------------------------------------------
prop("C01", "Thread pool runs every dispatched task exactly once and never loses a wakeup",
 "Every task dispatched to a thread pool runs exactly once, its completion callback runs once after it, and waiting on a parent returns only after (and always after) all of that parent's tasks have finished. Dispatch blocks only while the queue is full, waiting for an available thread returns once one is available, and no more than the configured maximum number of threads ever exists. No schedule of dispatchers, workers, idle timeouts and a destroying caller deadlocks or touches freed memory.",
 ["schedules"], "all interleavings of 1-3 client threads and up to 3 workers up to a preemption/timeout bound, for several pool shapes (min/max threads, idle time, queue size)",
 "check_thread_native runs one schedule per execution on a fast machine; lost wakeups and check-then-act races need a specific preemption.",
 ["thread/m_threadpool.c"], [("queue_lock/queue_icond/queue_ocond protocol", "thread/m_threadpool.c"), ("parent lock + tasks_remaining", "thread/m_threadpool.c")],
 ["M_threadpool_dispatch_notify", "M_threadpool_parent_wait", "M_threadpool_destroy"])
prop("C02", "Pipeline finishes every task exactly once, in order, under every schedule",
 "Every task accepted by a thread pipeline visits the configured steps in order, and its finish callback is called exactly once with success only if every step succeeded, with fail for the task whose step failed, and with abort or fail for tasks abandoned because of a failure or destruction; after a failure (unless told not to abort) the pipeline reports a down status and refuses new tasks. Tasks leave the pipeline in insertion order when all succeed, waiting returns when the number of unfinished tasks is at most the requested limit, and destroy always terminates with no task lost.",
 ["schedules"], "all interleavings of the step threads, inserter, waiter and destroyer up to a preemption bound, with each step's outcome enumerated",
 "The tests run the success path with native scheduling; shutdown while a step is blocked on the next step's slot is never scheduled.",
 ["thread/m_thread_pipeline.c"], [("per-step slot + cond", "thread/m_thread_pipeline.c:pipeline_finish_step")],
 ["finish_cb", "M_thread_pipeline_wait", "M_thread_pipeline_destroy"])
prop("C03", "Mutexes, conditions, rwlocks, spinlocks and once give their stated guarantees",
 "A mutex, spinlock or write lock is held by at most one thread at a time and read locks are shared only with read locks; an unlock always lets some waiter proceed; a condition signal or broadcast issued while holding the mutex wakes a waiter that was already waiting, a timed wait reports a timeout only when not signalled and always returns holding the mutex; a once-routine runs exactly once and has completed before any caller returns. This holds for both the platform and the emulated read/write lock and for every interleaving of the callers.",
 ["schedules"], "all interleavings of 2-4 threads with 1-3 lock operations each, up to a preemption bound",
 "Unit tests spawn free-running threads and sample a handful of schedules.",
 ["thread/m_thread.c", "thread/m_thread_rwlock_emu.c", "thread/m_thread_pthread.c", "thread/m_atomic.c"],
 [("ticket spinlock", "thread/m_thread.c:M_thread_spinlock_lock_int"), ("rwlock emulation", "thread/m_thread_rwlock_emu.c"), ("once", "thread/m_thread.c:M_thread_once_int")])
prop("C04", "Thread create/join, thread-local storage and thread destructors are exact",
 "Creating a thread runs its function exactly once with the given argument and returns an id equal to the one the thread itself observes; joining a joinable thread returns its return value exactly once; a thread-local value is visible only to the thread that set it and its destructor runs exactly once per thread with a non-null value at that thread's exit; registered thread destructors run once at each thread's exit; the running-thread count returns to its old value after all threads ended, under every schedule.",
 ["schedules"], "all interleavings of creators, created threads and joiners up to a preemption bound",
 "Tests observe one native schedule of creation and exit.",
 ["thread/m_thread.c", "thread/m_thread_tls.c", "thread/m_thread_attr.c"],
 [("create handshake", "thread/m_thread.c:M_thread_create"), ("TLS purge", "thread/m_thread_tls.c")])
# ---- io -------------------------------------------------------------------------------------
prop("C05", "Event loop runs queued tasks and triggers once and never misses a wakeup",
 "A task queued to an event loop, or a trigger signalled, from any thread is executed by the loop (coalesced signals at least once after the last signal), in order of queueing, on the loop's thread, even if it races with the loop going to sleep; a removed trigger never fires after removal returned on the loop thread; a done/return request from any thread makes the loop return with the matching status. No interleaving deadlocks or uses freed memory.",
 ["schedules"], "all interleavings of 1-2 signalling threads with the loop thread up to a preemption bound, on the poll and epoll backends",
 "Event tests run against real time and one schedule; a missed wakeup needs a preemption between the queue check and the wait.",
 ["io/m_event.c", "io/m_event_trigger.c", "io/m_io_osevent_pipe.c", "io/m_event_poll.c", "io/m_event_epoll.c"],
 [("osevent wake + status WAKE/PROCESSING", "io/m_event.c")])
prop("C06", "Timers fire on time, the right number of times, never after removal",
 "A started timer fires no earlier than its interval after its start and in expiry order with respect to other timers; it fires as many times as its fire count says (or once if one-shot) and not after being stopped, removed or past its end time; reset and adjust take effect from the moment of the call; remaining-time queries agree with when it will fire. This holds for any sequence of timer operations, including from inside callbacks.",
 ["histories"], "all operation sequences over a small set of timers up to a depth under a virtual clock, against a reference scheduler",
 "Timer tests use real time and a few fixed scripts.",
 ["io/m_event_timer.c"], [("timer queue", "io/m_event_timer.c")], ["timer callbacks", "M_event_timer_get_remaining_ms"])
prop("C07", "IO layers deliver the byte stream intact for every fragmentation",
 "Bytes written at one end of a connection are read at the other end exactly once, in order and unmodified, through any stack of buffer, trace and bandwidth-shaping layers on any connection, pipe or loopback, new, accepted or reconnected, however reads and writes are split and whatever partial results the lower layer returns. Write events are delivered when more can be written after a would-block, read events when data is available; to a reader that reads all there is on every event, a disconnect by the peer is reported only after all data preceding it was read, and a graceful disconnect still delivers what was accepted for writing. A bandwidth limit that is set is never exceeded over its sample period and never stalls the stream.",
 ["histories", "fault_sequences"], "all sequences of small reads/writes/closes and lower-layer partial/would-block answers up to a depth",
 "Tests move bulk data with whatever fragmentation the kernel chose.",
 ["io/m_io.c", "io/m_io_buffer.c", "io/m_io_loopback.c", "io/m_io_bwshaping.c", "io/m_io_pipe_posix.c", "io/m_io_posix_common.c", "io/m_io_trace.c"],
 [("layer read/write chaining", "io/m_io.c"), ("buffering", "io/m_io_buffer.c")])
prop("C08", "PROXY protocol headers are parsed and produced exactly, at every split",
 "An inbound PROXY v1 or v2 header delivers exactly the relayed addresses, ports and type, consumes exactly the header's bytes and passes every following byte to the application, however the bytes are fragmented; a malformed, oversized or disallowed header never results in a connected stream; and the header an outbound endpoint writes is accepted by an inbound endpoint with the same addresses.",
 ["inputs", "histories"], "all headers from a grammar of valid and mutated v1/v2 headers, at every split point, for each flag set",
 "There is no unit test of the layer.",
 ["io/m_io_proxy_protocol.c"], [("state machine of the layer", "io/m_io_proxy_protocol.c")])
# ---- log ------------------------------------------------------------------------------------
prop("C10", "Async writer delivers messages in order and only drops what it reports",
 "Messages accepted by an asynchronous writer reach the write callback in order, each at most once (a message is offered again only when the callback rejected it); messages are dropped only when the queued bytes exceed the configured maximum, oldest first, and the number dropped is reported in-band; a stop or flushing destroy returns only after everything required to be written was written; the liveness query and blocking commands return. No interleaving of writers, the worker and the destroyer deadlocks or uses freed memory.",
 ["schedules"], "all interleavings of 1-2 writers, the worker and a controller up to a preemption bound, for several queue limits and callback outcomes",
 "The logging module has no unit tests for it.",
 ["log/m_async_writer.c"], [("queue + internal thread state machine", "log/m_async_writer.c")])
# ---- sql ------------------------------------------------------------------------------------
prop("C12", "Connection pool never exceeds its size, shares a connection or strands a waiter",
 "A SQL connection pool never opens more than its maximum number of connections, never lets two users hold one connection at the same time, returns every connection after use, and always wakes a waiter when a connection becomes available, under every interleaving of users, including when connections fail and are re-established; a connection that failed is not handed out again.",
 ["schedules", "fault_sequences"], "all interleavings of 2-3 users against a stub driver with each driver call's outcome enumerated, up to a preemption/fault bound",
 "check_sql uses sqlite and one schedule; failures and reconnects are not injected.",
 ["sql/m_sql_connpool.c", "sql/m_sql_trans.c", "sql/m_sql_stmt.c"], [("group queue and conds", "sql/m_sql_connpool.c")])
prop("C13", "Transactions commit all or nothing, and retry exactly the retryable failures",
 "Processing a transaction runs the user's commands inside one begin/commit pair on one connection; it reports success only if the commit succeeded, rolls back on any failure before reporting or retrying, and retries from the beginning exactly when the failure was a deadlock/rollback or loss of connection (or the user asked for a retry), with a fresh transaction and no statement leaking between attempts; a failure of any other kind is reported once.",
 ["fault_sequences"], "every sequence of driver outcomes (success, deadlock, disconnect, failure at each call) up to a number of faults",
 "sqlite in check_sql never fails on demand.",
 ["sql/m_sql_trans.c", "sql/m_sql_connpool.c"], [("M_sql_trans_process", "sql/m_sql_trans.c")])
prop("C14", "Statement results return exactly the rows the driver produced",
 "Executing a statement passes exactly the bound parameters (types, values, nulls and rows) to the driver, and every fetch pattern returns exactly the produced rows, columns, nulls and types, in order and once; type-converting getters agree with the column's text; column lookup by name finds exactly the right column; results read past the end or with a wrong index are reported as errors and never as data.",
 ["histories", "inputs"], "all small parameter/row sets and fetch-size patterns against sqlite and a reference table",
 "check_sql uses a handful of queries.",
 ["sql/m_sql_stmt.c", "sql/m_sql_stmt_bind.c", "sql/m_sql_stmt_result.c", "sql/m_sql_driver_helper.c", "sql/sqlite/mstdlib_sql_sqlite.c"], [("bind rows, fetch state", "sql/m_sql_stmt.c")])
# ---- base: containers -----------------------------------------------------------------------
prop("C20", "Hash tables behave as maps under every operation sequence",
 "Every hash table flavour behaves as an associative map (case-insensitively where requested, and as an ordered multi-value map where requested): a lookup returns the last value inserted for the key, or the values in order for multi-value tables; removal removes exactly that entry; counts are exact; enumeration visits every entry once (in insertion or sorted order when ordered); duplicate and merge preserve all of this; growth never changes contents. No operation sequence corrupts memory or leaks.",
 ["histories"], "all operation sequences up to a depth over colliding keys and all flag combinations, including across table growth",
 "Unit tests run a few fixed scripts per table.",
 ["base/hash/m_hashtable.c", "base/hash/m_hash_dict.c", "base/hash/m_hash_strvp.c", "base/hash/m_hash_u64vp.c", "base/hash/m_hash_multi.c"], [("open hashing with chained buckets, ordered key llist", "base/hash/m_hashtable.c")])
prop("C21", "Lists keep their order, sorting, set and stack/queue semantics",
 "An array list or linked list behaves as a sequence: positional access, insertion, removal, take and replace act on exactly the addressed elements; sorted lists stay sorted, with equal elements in insertion order for stable array lists and for linked lists; every comparison gets the list's thunk; set lists hold no duplicates; stacks and queues take from their documented end; searches find exactly the matching elements; duplicate, merge and change of sorting preserve the multiset. No operation sequence corrupts memory or leaks.",
 ["histories"], "all operation sequences up to a depth over small value domains, for every flag combination",
 "Unit tests run a few fixed scripts per list type.",
 ["base/list/m_list.c", "base/list/m_list_str.c", "base/list/m_list_u64.c", "base/list/m_list_bin.c", "base/list/m_llist.c", "base/list/m_llist_str.c", "base/list/m_llist_u64.c"], [("array with start offset", "base/list/m_list.c"), ("skip list", "base/list/m_llist.c")])
prop("C22", "Queue and cache: membership, order and least-recently-used eviction",
 "A pointer queue holds each member once, enumerates and takes in insertion (or sorted) order, and removal by member is exact. A cache never holds more entries than its maximum, returns the last value stored for a key, and when full evicts exactly the least recently used entry, where both storing and fetching count as use; shrinking the maximum evicts the least recently used ones first; evicted and replaced values are destroyed exactly once.",
 ["histories"], "all operation sequences up to a depth over more keys than the cache holds",
 "Unit tests check one eviction script.",
 ["base/data/m_queue.c", "base/cache/m_cache.c", "base/cache/m_cache_strvp.c"], [("key llist + hashtable", "base/cache/m_cache.c")])
prop("C23", "Byte buffers equal the concatenation of what was added minus what was dropped",
 "A byte buffer's content is always exactly the bytes added (with each add function's documented formatting), minus those dropped from the front and truncated from the end, whatever the sequence of adds, drops, truncations, direct writes and merges and however often the buffer grows or shifts; the content is null-terminated and functions that take a width report when the value does not fit. No sequence reads or writes outside the buffer.",
 ["histories"], "all operation sequences up to a depth, sized to cross growth and shift thresholds, against a reference byte string",
 "Unit tests cover single adds.",
 ["base/data/m_buf.c"], [("data/offset/length window", "base/data/m_buf.c")])
prop("C24", "Parsers consume exactly what they report and never pass the end",
 "A data parser is a cursor over its bytes: every peek, read, consume, truncate, split and compare operation acts on exactly the bytes it documents, a read that cannot be satisfied fails without moving, the remaining length, current offset, line and column always agree with what was consumed, and rewinding to a mark restores the position at the mark even after data was appended. Parsers over constant data and growing parsers behave the same.",
 ["histories", "inputs"], "all operation sequences up to a depth over small texts, against a reference cursor",
 "Unit tests cover single operations on fixed texts.",
 ["base/data/m_parser.c"], [("const/dynamic data window and mark", "base/data/m_parser.c")])
prop("C25", "Bit buffers, bit parsers and bit lists round trip every bit string",
 "A bit buffer holds exactly the bits added, set, updated, filled and truncated, with the documented padding; a bit parser reads back exactly those bits as bits, ranges, signed/unsigned integers and bit buffers, never past the end and with exact offsets and marks.",
 ["histories", "inputs"], "all operation sequences up to a depth with lengths spanning byte boundaries, against a reference bit string",
 "Unit tests use fixed bit strings.",
 ["base/data/m_bit_buf.c", "base/data/m_bit_parser.c"], [("bit offset arithmetic", "base/data/m_bit_buf.c")])
prop("C26", "State machines run the states and cleanups their definition prescribes",
 "A state machine runs states in exactly the order its transitions, returns (next, previous, wait, stop, done, error), sub-machines and cleanup machines define: waiting resumes in the same state, previous returns along the visited history, disallowed transitions end in the documented error, cleanup runs exactly once for the entered scope with the right reason, and reset and duplicate start a machine in the initial condition.",
 ["histories"], "all small machines and all sequences of state results up to a depth, against a reference interpreter",
 "Unit tests have about twenty fixed machines.",
 ["base/data/m_state_machine.c"], [("M_state_machine_run", "base/data/m_state_machine.c")])
prop("C27", "Sorting and binary search are correct and stable for every input",
 "The library's sorts produce a sorted permutation of the input for every comparator (merge sort and the library sort stable where documented), and binary search and insertion-point search return an element equal to the key exactly when one exists, the first or last equal element where documented, and an insertion point that keeps the array sorted.",
 ["inputs"], "all arrays up to a length over a small domain, plus structured larger arrays",
 "Tests sort a few arrays through lists only.",
 ["base/sort/m_sort_mergesort.c", "base/sort/m_sort_binary.c", "base/sort/m_sort_qsort.c", "base/sort/m_sort_compar.c"], [("M_sort_binary_*", "base/sort/m_sort_binary.c")])
# ---- base: values ---------------------------------------------------------------------------
prop("C30", "Integer text conversion is exact and reports overflow and garbage",
 "Converting text to 32/64-bit signed or unsigned integers in any base returns the exact value with success, or the documented saturated value with an overflow status, or the documented partial value and end position with an invalid status, for every text, length limit and base; formatting an integer and parsing it back is the identity.",
 ["inputs"], "all strings up to a length over digits, signs, prefixes, blanks and garbage for all bases, plus all neighbours of the limits",
 "The tests list about 50 strings.",
 ["base/data/m_str_num.c"], [("M_str_to_int*", "base/data/m_str_num.c")])
prop("C31", "String functions never overrun and match their definitions",
 "Copying and concatenating with a size limit never writes beyond the destination and always terminates it, reporting truncation; comparison, search, case change, trimming, splitting (exploding), joining, quoting/unquoting, deletion and replacement return exactly what their documentation defines for every input including empty, null and maximal ones; splitting and joining are inverse; wildcard pattern match agrees with the wildcard's definition.",
 ["inputs"], "all strings up to a length over a small alphabet, for every limit and delimiter",
 "The tests list fixed strings.",
 ["base/data/m_str.c", "base/data/m_str_patmatch.c"], [("explode/quote", "base/data/m_str.c")])
prop("C32", "Formatted printing follows the C standard and never exceeds the buffer",
 "Formatted printing produces exactly what the C standard prescribes for every supported conversion, flag, width, precision and length modifier, returns the full length that would have been produced, writes at most the given size including the terminator, and allocating, buffer and stream variants produce the same text.",
 ["inputs"], "the full cross product of flags, widths, precisions, length modifiers, conversions and boundary values, compared with the platform's printf",
 "The tests list about 100 formats.",
 ["base/data/m_str_fmt.c"], [("format parser and writers", "base/data/m_str_fmt.c")])
prop("C33", "Decimal arithmetic is exact or reports what was lost",
 "Decimal creation, parsing, addition, subtraction, multiplication, division, comparison, rounding and scaling return the exact mathematical result, correctly rounded by the chosen method where digits must be dropped, and report overflow or truncation exactly when it happened; printing and parsing round trip.",
 ["inputs"], "all pairs of decimals from a boundary-heavy set, all operations and rounding modes, against wide-integer arithmetic",
 "The tests list about 20 operations.",
 ["base/math/m_decimal.c", "base/math/m_round.c"], [("M_decimal_*", "base/math/m_decimal.c")])
prop("C34", "Binary-text codecs are inverse and reject exactly the malformed",
 "Encoding bytes as base64, base32 or hex (with any line wrap) follows RFC 4648 and decoding it returns the same bytes; decoding ignores whitespace only where allowed, rejects malformed input, and never writes beyond the buffer size its length function promised.",
 ["inputs"], "all byte strings and all texts up to a length over a representative alphabet, all wraps and destination sizes",
 "The tests list a dozen vectors.",
 ["base/bincodec/m_bincodec.c", "base/bincodec/m_base64.c", "base/bincodec/m_base32.c", "base/bincodec/m_hex.c"], [("encode/decode loops", "base/bincodec")])
prop("C35", "UTF-8 handling accepts exactly well-formed text and steps by characters",
 "UTF-8 validation accepts exactly well-formed UTF-8 (no overlong forms, surrogates or values above 10FFFF); decoding any valid character and encoding it again is the identity; iteration, counting, positional access and character-class checks agree with a character-by-character reading and never read past the terminator on malformed input.",
 ["inputs"], "all code points, and all byte strings up to 4 bytes over every byte class boundary",
 "Tests use sample strings.",
 ["base/utf8/m_utf8.c", "base/utf8/m_utf8_check.c"], [("M_utf8_get_chr", "base/utf8/m_utf8.c")])
prop("C36", "Text codecs round trip and apply the chosen error policy",
 "For every supported codec, decoding an encoded text gives back the text for all representable characters, code points the codec cannot represent or bytes it cannot decode are reported and handled by the chosen policy (fail, ignore, replace) and nothing else is changed; percent, form-url, punycode and quoted-printable encodings are inverse and produce only their permitted characters.",
 ["inputs"], "every byte and every code point of every single-byte codec, all short strings for the others, each policy",
 "Tests use sample strings for a few codecs.",
 ["text/textcodec/m_textcodec.c", "text/textcodec/m_textcodec_cp_map.c", "text/textcodec/m_textcodec_percent.c", "text/textcodec/m_textcodec_punycode.c", "text/textcodec/m_textcodec_quoted_printable.c"], [("codepage maps", "text/textcodec")])
prop("C37", "Calendar conversions are exact inverses over the whole range",
 "Converting a time to UTC calendar fields gives the proleptic Gregorian date, weekday and day of year, and converting fields (normalised or overflowing) back gives the exact time; formatting a time with a format and parsing it with the same format gives the same time.",
 ["inputs"], "every day over several centuries and every field overflow, and all supported format directives",
 "Tests list a few dates.",
 ["base/time/m_time_gm.c", "base/time/m_time.c", "base/time/m_time_parse.c"], [("M_time_timegm", "base/time/m_time_gm.c")])
prop("C38", "Time zone conversion agrees with the zone's rules at every transition",
 "For a zone loaded from a POSIX rule string or zoneinfo data, converting UTC to local time and back applies the offset, daylight flag and abbreviation in force at that instant, at and around every transition, including northern and southern rules and instants before the first and after the last transition; local to UTC is the inverse wherever local time is unambiguous.",
 ["inputs"], "every transition of a set of zones with neighbouring seconds, and all rule strings of a small grammar, against the platform's own zone code",
 "Tests check a few zones and instants.",
 ["base/time/m_time_tz_posix.c", "base/time/m_time_tz_rule.c", "base/time/m_time_tz_olson.c", "base/time/m_time_tz_olson_transitions.c", "base/time/m_time_tz_dst_rules.c"], [("adjustment selection", "base/time/m_time_tz_rule.c")])
prop("C39", "Path normalisation keeps the meaning of a path and is idempotent",
 "Normalising, splitting, joining, resolving and extracting parts of a path yield a path naming the same file as the original would by component-wise resolution, never climbing or descending elsewhere; normalising twice changes nothing; joining the parts of a split path gives the path back; directory and base name partition the path.",
 ["inputs"], "all paths up to a number of components over {name, ., .., empty, ~-like}, relative and absolute, both separators",
 "Tests list a few dozen paths.",
 ["base/fs/m_fs_path.c", "base/fs/m_fs_path_norm.c"], [("M_fs_path_norm", "base/fs/m_fs_path_norm.c")])
prop("C40", "File copy, move and write lose nothing under any I/O fault",
 "Copying or moving a file or tree yields an identical destination and (for move) no source, or reports an error with the source intact; whole-buffer reads and writes transfer everything in order across short transfers and interrupts or report how much was transferred; overwriting happens only when asked for, and a tree delete removes nothing outside the tree. This holds whichever system call fails or returns short.",
 ["fault_sequences"], "every choice of up to two failing, short or interrupted system calls in each operation on small trees",
 "Tests never make a system call fail.",
 ["base/fs/m_fs.c", "base/fs/m_fs_file.c", "base/fs/m_fs_file_unx.c", "base/fs/m_fs_dir.c", "base/fs/m_fs_dir_walk.c"], [("M_fs_copy/M_fs_move/M_fs_delete", "base/fs/m_fs.c")])
prop("C41", "File permissions are set, merged and reported exactly",
 "Setting permissions on a file or directory leaves it with exactly the mode the permissions describe: what is set replaces, what is added or removed changes only those bits, what is unset stays; directory overrides apply to directories only; merging, duplicating and converting permissions lose nothing, and permissions read back from a file are those it has.",
 ["inputs"], "all permission triplets over set/add/remove/unset for user, group and other, all initial modes, with directory overrides",
 "Tests set a few modes.",
 ["base/fs/m_fs_perms.c", "base/fs/m_fs_dir.c"], [("M_fs_perms_set_perms/M_fs_perms_merge", "base/fs/m_fs_perms.c")])
# ---- text -----------------------------------------------------------------------------------
prop("C45", "Regular expressions match exactly the language and the right spans",
 "A compiled regular expression reports a match exactly when some substring belongs to its language, with the leftmost match and the documented greedy or minimal span and group spans; equality, search, find-all and substitution agree with each other; invalid patterns are rejected; matching always terminates and never reads outside the subject.",
 ["inputs"], "all patterns up to a size over a small grammar against all subjects up to a length, compared with a reference matcher",
 "Tests list some patterns.",
 ["text/re/m_re.c", "text/re/mtre/regcomp.c", "text/re/mtre/regexec.c"], [("TRE matcher", "text/re/mtre/regexec.c")])
# ---- formats --------------------------------------------------------------------------------
prop("C50", "JSON: accepts exactly valid documents and round trips every value",
 "The JSON reader accepts exactly well-formed JSON (plus the extensions its flags enable), builds the value the text denotes, and rejects everything else without crashing; writing any value in any formatting mode and reading it back gives an equal value; JSONPath search returns exactly the denoted nodes.",
 ["inputs"], "all texts up to a length over JSON's structural alphabet and all value trees up to a size, for all flags",
 "Tests list valid and invalid documents.",
 ["formats/json/m_json.c", "formats/json/m_json_reader.c", "formats/json/m_json_writer.c", "formats/json/m_json_jsonpath.c"], [("recursive reader", "formats/json/m_json_reader.c")])
prop("C51", "XML: written documents read back identically, malformed ones are rejected",
 "Writing any XML tree and reading it back gives the same elements, attributes, text, comments and processing instructions; special characters in text and attributes are escaped and restored; documents with mismatched, unclosed or misplaced tags are rejected, whatever their content; no input crashes the reader; XPath searches return exactly the denoted nodes.",
 ["inputs"], "all trees up to a size with texts over special characters, and all short texts over XML's structural alphabet",
 "Tests list sample documents.",
 ["formats/xml/m_xml.c", "formats/xml/m_xml_reader.c", "formats/xml/m_xml_writer.c", "formats/xml/m_xml_entities.c", "formats/xml/m_xml_xpath.c"], [("reader/writer", "formats/xml")])
prop("C52", "CSV: quoting round trips, every cell is exactly where the text puts it",
 "Parsing CSV text yields exactly the rows and cells of the text under RFC 4180 with the configured delimiter, quote and flags; cells by header name and by number agree; writing a table as CSV and parsing it again gives the same cells, whatever characters the cells contain.",
 ["inputs"], "all texts up to a length over delimiter, quote, CR, LF, blank and a letter; all small tables",
 "Tests list sample files.",
 ["formats/csv/m_csv.c", "formats/table/m_table.c", "formats/table/m_table_csv.c"], [("in-place cell parsing", "formats/csv/m_csv.c")])
prop("C53", "INI: read, edit, write and merge keep exactly the settings",
 "Reading an INI file yields exactly the keys, values and order of the text; after any sequence of set, remove and rename operations the written file reads back as the modified settings with comments and untouched lines preserved; merging applies exactly the new and changed keys while keeping user-modified values.",
 ["inputs", "histories"], "all small files over sections, keys, comments and blanks, all edit sequences up to a depth and all three-way merges of small files",
 "Tests list sample files and a few merges.",
 ["formats/ini/m_ini.c", "formats/ini/m_ini_reader.c", "formats/ini/m_ini_writer.c", "formats/ini/m_ini_merger.c", "formats/ini/m_ini_kvs.c"], [("element list + key-value store", "formats/ini")])
prop("C54", "HTTP messages parse the same however the bytes are fragmented",
 "For any HTTP message the sequence of reported start line, headers, body, chunks and trailers, and the number of bytes consumed, depends only on the bytes and not on how they were split over reads; a complete valid message is reported complete exactly at its end, no byte of a following message is consumed, and malformed messages are rejected at every split.",
 ["inputs", "histories"], "messages of a grammar (lengths, chunking, trailers, multipart, errors) at every way of splitting into up to 3 pieces",
 "Tests feed whole messages or a few hand-made splits.",
 ["formats/http/m_http_reader.c", "formats/http/m_http_simple_reader.c", "formats/http/m_http_chunk.c"], [("resumable reader", "formats/http/m_http_reader.c")])
prop("C55", "HTTP writer output reads back as the message that was written",
 "A request or response produced by the HTTP writer is accepted by the HTTP reader and yields the same method, URI, status, headers, content type and body; header and query values are encoded so that no value can end a header or inject another.",
 ["inputs"], "all combinations of method, URI, header and body shapes including separators and control characters",
 "Tests compare a few fixed outputs.",
 ["formats/http/m_http_simple_writer.c", "formats/http/m_http_headers.c", "formats/http/m_http_header.c", "formats/http/m_http_uri.c"], [("writer", "formats/http/m_http_simple_writer.c")])
prop("C56", "URLs are split into exactly their components",
 "Parsing a URL yields exactly the scheme, userinfo, host, port, path, query and fragment that the URL's text contains by RFC 3986, for every combination of present and absent components; text that is not a URL is rejected.",
 ["inputs"], "all combinations of components plus all texts up to a length over URL structural characters",
 "Tests list a few URLs.",
 ["formats/url/m_url.c", "formats/url/url_parser.c"], [("state table", "formats/url/url_parser.c")])
prop("C57", "Email messages parse the same at every split and written mail reads back",
 "For any email message the reported headers, parts and body bytes depend only on the bytes, not on how they were split; a message produced by the email writer reads back with the same recipients, headers, parts and attachment bytes.",
 ["inputs", "histories"], "messages of a grammar at every split into two pieces; all small written messages",
 "Tests parse whole fixed messages.",
 ["formats/email/m_email.c", "formats/email/m_email_reader.c", "formats/email/m_email_simple_writer.c", "formats/email/m_email_simple_reader.c"], [("resumable reader", "formats/email/m_email_reader.c")])
# ---- tls / net ------------------------------------------------------------------------------
prop("C58", "Tables hold exactly the cells put into them, by name and by number",
 "After any sequence of inserting, renaming, removing, sorting and merging rows and columns and of setting cells, a table has exactly the columns, rows and cells those operations denote, found by column name and by index alike; operations that cannot be carried out report failure and change nothing; a table written as JSON or Markdown and loaded again has the same cells.",
 ["inputs", "histories"], "all operation sequences up to a depth over rows, columns, names and flags, all small tables written and loaded, a grammar of Markdown texts",
 "Tests follow one scripted sequence.",
 ["formats/table/m_table.c", "formats/table/m_table_json.c", "formats/table/m_table_markdown.c"], [("column ids and row dictionaries", "formats/table/m_table.c")])
prop("C60", "TLS hostname validation accepts exactly the names a certificate covers",
 "A server certificate is accepted for a host exactly when one of the names the flags select (subject alternative names, common names) equals the host case-insensitively, or is a wildcard, where allowed, standing for exactly one leftmost label (several only if configured), or is the host's IP address; a name with embedded nulls, a wildcard elsewhere or a wildcard for part of an IP address never matches.",
 ["inputs"], "all pairs of certificate names and hosts up to a number of labels over a small alphabet with wildcards, for all flags",
 "Tests validate one certificate.",
 ["tls/m_tls_hostvalidate.c"], [("M_tls_verify_host", "tls/m_tls_hostvalidate.c")])
