"""Which harness runs decide which property, and how."""
CHECKS = {}
def check(pid, technique, note, runs, bounds="", level="model_checking", **kw):
    CHECKS[pid] = dict(technique=technique, note=note, runs=[r if isinstance(r, dict) else {"h": r} for r in runs], bounds=bounds, level=level, **kw)

SEQ = "explicit-state exploration of the real code (all inputs / operation sequences within bounds, reference-model oracle)"

check("C27", SEQ, "Exhaustive for arrays up to the stated length over a 3/4-key alphabet and all run-length shapes for searching; longer arrays only in systematic patterns. Trusts the comparator contract and ASAN.",
      ["h_sort"], "arrays of 0..8 (thorough 10) elements over 3 (4) keys, 3 element sizes, both sorts; sorted arrays with 0..9 (17) copies of each of 3 keys, every probe, stable and unstable; 13 larger sizes x 6 patterns")
SCHED = "stateless model checking of the real code: all schedules within a delay/preemption bound under a controlled scheduler"
SCHEDNOTE = "Every schedule of the closed driver with at most the stated number of deviations (preemptions, non-round-robin successors, early timeouts, signal targets) is executed on the real code, with virtual time, happens-before race feedback, use-after-free and deadlock detection. Sequential consistency assumed. "
check("C01", SCHED, SCHEDNOTE, ["h_threadpool"], "8 pool shapes (min/max threads 0..2, idle time 0/10ms/never, queue 1..unbounded) x 8 client programs (1-2 clients, up to 4 tasks); 2 deviations (thorough 3)")
check("C02", SCHED, SCHEDNOTE, ["h_pipeline"], "1-3 steps, 1-3 tasks, every choice of the failing task and step, abort/no-abort, 4 driver programs (wait+destroy, destroy at once, throttled inserts, second inserter); 2 deviations (thorough 3)")
check("C03", SCHED, SCHEDNOTE + "The native rwlock is glibc's, modelled by the scheduler; the emulated one runs as is.", ["h_locks"], "2-3 threads; mutex (normal, recursive, trylock), native and emulated rwlock with 1-2 acquisitions each, reader sharing, writer preference, spinlock incl. ticket wrap, once/reset, conditions with spurious wakeups, timed waits of 9 lengths up to a year; 3 deviations (thorough 4), 1 less for 3-thread rwlock and spinlock programs")
check("C04", SCHED, SCHEDNOTE, [{"h": "h_thread", "p": {"scen": i, "raw": r, "budget": (3, 4)}, "what": "scenario %d raw %d" % (i, r)} for i in range(5) for r in (0, 1)], "up to 3 joinable or 2 detached threads, nested creation, all 16 TLS programs of set/overwrite/clear/set on 2 keys, destructor registrations, with and without scheduling inside the creation handshake and spurious wakeups; 3 deviations (thorough 4)")
check("C05", SCHED, SCHEDNOTE + "Descriptors are real pipes and epoll instances driven without blocking.", [{"h": "h_event", "p": {"scen": i, "budget": b}, "what": "scenario %d" % i} for i, b in ((0, (3, 4)), (1, (3, 5)), (2, (4, 6)), (3, (3, 5)), (4, (3, 5)), (5, (3, 4)), (6, (3, 4)), (7, (3, 4)), (8, (4, 6)), (9, (3, 4)), (10, (4, 5)), (11, (4, 6)), (12, (4, 5)), (13, (4, 6)), (14, (4, 5)), (15, (3, 4)))],
      "epoll and poll back ends; 1-2 producer threads queueing up to 3 tasks, up to 3 trigger signals, done/return from outside at any time, trigger removal and editing with signals pending, pool of 2 loops, exit-on-empty, loop timeouts, timers started, stopped and removed from outside, two loops queueing to each other; 3-4 deviations (thorough 4-6)")
check("C06", SEQ, "Virtual clock and poll; two timers. The exact firing of a timer that comes up at the very millisecond of its end time or after a callback overran is taken from the library. Cross-thread timer calls are explored by C05.",
      ["h_timer", {"h": "h_event", "p": {"scen": 9, "budget": (3, 4)}, "what": "stop from another thread"}], "2 timers in 7x4 initial configurations (fire count, mode, autoremove, started or not) x 10 callback behaviours x all sequences of 3 (thorough 5) of 24 operations, loop runs of 5..40 ms")
check("C20", SEQ, "Reference multi-map; ASAN and per-execution leak check. Values that compare equal may come in either order in a sorted multi-value key. Serialisation round trips are for keys without structural characters, as keys are never quoted.",
      ["h_hash"], "9 table types x up to 15 flag/size/fill configurations (1-2 initial buckets, so chains and rehashing occur at once), all sequences of 3 (thorough 4) of up to 40 operations with pruning of revisited states, incl. duplicate and 6 merges; the mixed-type table likewise; serialisation of all values up to 4 (5) characters over 9 in 5 configurations; all texts up to 6 (7) over 6 characters through the deserialiser")
check("C21", SEQ, "Reference array model; counts frees of every element; ASAN and leak check. Which of several equal elements a single-match operation picks is not judged in unstable sorted lists.",
      ["h_list", "h_llist"], "array lists: 11 flag sets x 3 fills, all sequences of 3 (thorough 4) of 19 operations with index arguments at all edges; string/integer/binary wrappers in 7 modes, sequences of 4 (5); linked lists: unsorted, circular, sorted, sorted with thunk x 3 fills, sequences of 4 (5) (sorted 3 (4), with every skip-list level choice); wrappers likewise")
check("C22", SEQ, "Reference recency list; counts destruction of every value and key; ASAN and leak check.", ["h_queue"],
      "cache: string keys (exact and case-insensitive) and generic with duplicating callbacks, maximum 0..4, 5 keys, fresh and NULL values, all sequences of 8 (thorough 14) of insert/remove/get/resize with pruning of revisited states; queue: sorted and unsorted, owning or not, 6 members, same depth")
check("C23", SEQ, "Reference byte string and formatting by definition; ASAN and leak check.", ["h_buf"],
      "8 starting buffers (empty, around the 1024-byte growth threshold, with dropped prefixes) x all sequences of 2 (thorough 3) of about 300 operation instances of 18 kinds; 14 number formats x edge values x widths 0..25; decimals")
check("C24", SEQ, 'Reference cursor with line and column; ASAN and leak check. A pattern not found by truncate_until removes everything (as its unit test states); an integer read with invalid BCD digits is not judged.', ["h_parser"],
      'all texts of 0..5 (6) symbols over {a,b,space,newline}, constant and growing (every split into two appends), with every single operation (about 400 instances); texts to 2 (3) with all pairs; window sequences of 6 (8) append/write/consume/mark/rewind; all splits of texts to 5 (7) symbols; integer, BCD and STX/ETX/LRC tables')
check("C30", SEQ, '128-bit reference; exact-size heap buffers under ASAN. A 0x prefix with no digit after it is invalid as coded.', ["h_strnum"],
      'all texts of 0..5 (thorough 6) symbols over digits, signs, x, letters, whitespace and NUL for 10 bases (valid and invalid) at every length; values around 14 powers of two x 6 multiples x 9 offsets in every base 2..36 with 7 prefixes and 4 suffixes; repeated digits to 70; format round trips')
check("C25", SEQ, 'Reference bit string; ASAN and leak check. Bit lists with id 0 and read_uint of 0 bits are not judged.', ["h_bits"],
      'bit buffers: all sequences of 3 (4) operations; parsers: all bit strings of several lengths x sequences of 2 (3) reads; integers of every width; bit lists over all token sequences up to 3 (4)')
check("C26", SEQ, 'Interpreter of the documented rules as oracle; ASAN and leak check. The default status for STOP_CLEANUP and of pre callbacks is not judged.', ["h_statemachine"],
      '6 machine shapes (linear, branching, sub machine, interleaved sub machines, cleanup machines, nested) x 10 flag sets; every callback decision (status, next state, pre status) with at most 2 (3) deviations from plain progress; reset with each reason between two runs; duplication')
check("C31", SEQ, 'strings: comparison, search, copying, trimming, justification, explode/implode, replacement, quoting, patterns, money amounts, against naive reference implementations under ASAN', ["h_str"],
      'all texts over small alphabets (see params in h_str.c) for every function')
check("C32", SEQ, "formatted output against glibc's printf, into every kind of destination and every destination size", ["h_fmt"],
      'all flag/width/precision/modifier/conversion combinations over boundary values, all format texts of length <= 5 (6)')
check("C33", SEQ, 'decimals against 128 bit arithmetic', ["h_dec"],
      'all pairs of 57 boundary numbers x 8 scales for every operation and rounding mode, all texts of length <= 5 (7) over 12 characters, long digit strings x exponents')
check("C34", SEQ, 'base64, base32 and hex against independent RFC 4648 coders', ["h_bincodec"],
      'all byte strings of length <= 5 (7) over 6 byte values x 10 wraps, all lengths <= 70 (200) x wraps < 80, all texts of length <= 6-8 (8-9) over codec specific alphabets, every destination size')
check("C35", SEQ, "Every code point and every byte string up to 4 bytes over all byte classes, against tables from the Unicode 15 database and the C library's case mapping.", ["h_utf8"],
      'all 1114112 code points; all byte strings up to 4 over byte class boundaries; all texts of up to 3 characters for iteration and positional access')
check("C36", SEQ, "text codecs against independent tables and reference coders (built from Python's codecs)", ["h_textcodec"],
      'every byte and every code point for every code page, all byte strings up to 3-4 over codec specific alphabets, every error handler and destination, both directions')
check("C37", SEQ, "calendar conversion, normalisation, formatting and parsing against civil-day arithmetic and the platform's strftime", ["h_time"],
      'every day of the years 1600-2420 (-1000-4000), all pairs of field overflows from a set of 60 deltas over 11 dates, all 1-2 conversion formats, all 388 documented date formats, all texts of short format/zone grammars')
check("C38", SEQ, "zone rules (POSIX strings, year rules), generated, damaged and system zone files against a reference implementation and the platform's zone code", ["h_tz"],
      'all POSIX strings of a grammar (8 offsets x 3 DST offsets x month/week/weekday/time rules), 20 instants around every transition for sampled years, both directions with every isdst; all generated zone files with up to 3 transitions x 4 types x versions x indicators; every truncation and byte change of a small file; all transitions of every installed zone')
check("C39", SEQ, 'path normalisation, splitting, joining, resolving and parts against component-wise resolution (links included)', ["h_path"],
      'all paths of up to 4 (5) components over a set of names, dots, empty parts, variables and both separators, absolute, relative, UNC and drive paths, all flags; a link tree on disk')
check("C50", SEQ, 'texts judged by a reference JSON reader, every tree written and read back, JSONPath against a reference evaluator', ["h_json"],
      'all texts of up to 5 (6) tokens, all string bodies and numbers of up to 5 (6) characters, all trees of up to 5 (6) choices for every writer flag, all paths of up to 3 (4) segments over four documents, all flags')
check("C51", SEQ, 'texts judged by a reference XML reader, every small tree written and read back, XPath against a reference evaluator', ["h_xml"],
      'all texts of up to 5 (6) tags or tokens, all trees of up to 2 (3) children over 2 levels with 11 texts and 12 attribute values for 4 writer settings, all XPath expressions of up to 3 (4) segments with predicates over two documents')
check("C52", SEQ, 'texts judged by an RFC 4180 reader, every small table written and read back through M_csv and M_table', ["h_csv"],
      'all texts of up to 7 (8) characters over delimiter, quote, CR, LF, blank and letters for 3 delimiter/quote pairs with and without trimming, parsed by copy and in place; all tables up to 2x2 over 12 cell texts with column selection, row filters, cell edits and other control characters; all loads into tables with 0-3 existing columns')
check("C58", SEQ, 'operation sequences against a model of a table, JSON and Markdown round trips', ["h_table"],
      'all sequences of 3 (4) operations out of about 290 from an empty and a 3x4 table, case sensitive and not; all tables of up to 3x2 over 9 cell texts for 16 Markdown settings and 2 JSON settings; 11520 Markdown texts')
check("C53", SEQ, 'INI texts read, edited, written and merged against a model of the text', ["h_ini"],
      'all texts of up to 3 (4) lines out of 18 for 5 duplicate-key policies, whitespace ignored or not and 2 line endings; all sequences of 2 (3) edits of 3 documents with every line that was not touched compared; all values of up to 3 (5) characters over quote, escape, comment, newline and blanks for 6 writer settings; all merges of three small files')
check("C54", SEQ, 'messages of a grammar with the event trace they must give, at every split', ["h_httpr"],
      'about 21000 messages (7 start lines, 8 header shapes, content length, chunks with extensions and trailers, multipart with preamble, parts and epilogue, until close) whole, bytewise and at every two-way split, those up to 70 (400) bytes at every three-way split; every message of a smaller set with each byte replaced by 5 (8) others or removed, at every split near (any) position; 80 malformed texts at every split; the simple reader on every prefix for 16 flag sets; every callback stopping the reader')
check("C45", SEQ, 'Exhaustive enumeration of patterns and subjects on the real code (explicit exploration of all choices), compared with a reference that derives the set of all matches with their groups.', ["h_re"],
      'all patterns of up to 5 (thorough 6) nodes over literals, any, sets, anchors, groups, alternation and 11 kinds of repetition, 5 flag settings set by argument or inline, on all texts of up to 4 (5) characters; bracket expressions of up to 3 items on all characters below U+0180; texts of up to 4 (5) pattern tokens; replacement texts of up to 5 (7) tokens; escapes')
check("C55", SEQ, "Exhaustive enumeration of messages written with the real code and read back by an independent parser and the library's own reader.", ["h_httpw"],
      'requests and responses over all combinations of methods, targets, headers, bodies, codecs and header modifiers from small sets with separators, CR/LF and empty values')
check("C56", SEQ, 'Exhaustive enumeration of URL texts on the real code, compared with RFC 3986 appendix B.', ["h_url"],
      'all combinations of present/absent components, all texts of up to 6 (thorough 7) structural characters behind several prefixes, components of lengths around powers of two')
check("C60", SEQ, 'Exhaustive enumeration of certificates and hosts on the real code (OpenSSL objects built per execution), compared with the matching rules.', ["h_tlshost"],
      'all names of up to 4 (thorough 5) labels over 8 labels against all hosts of up to 5 labels for 7 flag combinations; certificates of up to 3 (4) names of 19 kinds against 13 hosts for 16 flag combinations; names and hosts of 250..261 bytes; address names of every length 0..17 against 13 hosts')
check("C10", SCHED, SCHEDNOTE, [{"h": "h_asyncw", "p": {"scen": i, "budget": b}, "what": "scenario %d" % i} for i, b in ((0, (0, 1)), (1, (2, 3)), (2, (2, 3)), (3, (2, 3)), (4, (3, 4)))],
      "writers of up to 2 threads with commands, blocking commands, rejected messages, a full queue, stop with and without flush, destroy, start again, thread creation failing; 2 deviations (thorough 3)")
check("C40", SEQ, "Exhaustive fault injection: every choice of system calls that fail, transfer less or are interrupted, on the real code (real files in a scratch directory, every destructive call checked to stay inside it; a simulated file for M_fs_file).", [{"h": "h_fscopy", "p": {"budget": (1, 2)}, "what": "copy, move, delete of trees"}, {"h": "h_fsfile", "p": {"budget": (1, 2)}, "what": "buffered file I/O"}, {"h": "h_fsfile", "p": {"budget": (1, 2), "app": 1, "only": 0}, "what": "append"}, {"h": "h_fsfile", "p": {"budget": 2, "only": 1}, "what": "whole-file read and write"}],
      "copy, move, copy/move to directory, delete of files, symlinks and trees with and without existing destinations, within and across devices, one fault anywhere (thorough two); all sequences of up to 4 reads, writes, seeks and flushes on a file with a small buffer with a short, failed or interrupted call anywhere")
check("C41", SEQ, "Exhaustive enumeration on the real code against a model of permission triplets.", ["h_fsperms"],
      "all combinations of set, add, remove and unset for user, group and other over all modes, for files and directories with directory overrides; merges and duplicates of all pairs; mkdir, set and read back on real files in a scratch directory")
check("C13", SEQ, "Exhaustive fault injection: the real transaction and statement code on a simulated database behind the driver interface, every driver call's outcome (success, deadlock, connection lost, failure, constraint) enumerated; the simulated server also rejects any use of a connection a real one could not honour.", [{"h": "h_sqltrans", "p": {"only": i, "budget": b}, "what": w} for i, b, w in ((0, (1, 2), "M_sql_trans_process"), (1, (2, 3), "begin, statements, commit or rollback"), (2, (3, 4), "M_sql_stmt_execute of one and several rows"), (3, (3, 4), "selects in parts"))],
      "up to 2 operations out of 6 (1- and 3-row inserts, selects fetched whole or in parts, inserts outside) per transaction, 7 outcomes of the user's commands, with and without automatic retries; 1-3 (thorough 2-4) faults anywhere")
check("C12", SCHED, SCHEDNOTE, [{"h": "h_sqlpool", "p": {"scen": i, "budget": b}, "what": w} for i, b, w in ((0, (1, 3), "statements, selects given up half way and transactions, with connection failures"), (1, (2, 4), "all connections held, then released to users who need each other"), (2, (2, 3), "group inserts"), (3, (1, 1), "age, idle time, failover and load balancing (one thread)"), (4, (2, 3), "read only pool"))],
      "pools of 1-2 connections (and 1+1), 3 threads; preemptions plus faults at most 1-2 (thorough 3-4); 3 (thorough the same) operations and pauses for ages")
check("C14", SEQ, "Exhaustive enumeration: every combination of parameters, rows, columns, chunk sizes and fetch sizes within the bound goes through the real statement code to a driver that compares what reaches it, and the rows it produces are compared with what every getter returns.", [{"h": "h_sqlstmt", "p": {"only": i, "budget": b}, "what": w} for i, b, w in ((0, (1, 2), "parameters"), (1, (2, 3), "rows"), (2, (2, 2), "prepare"))],
      "1-2 parameters of 15 values (all types, null, empty, cut) in 1-4 rows; 0-5 rows of 1-2 columns of 4 types, fetched 0-4 at a time; queries of up to 3 pieces of 10")
check("C07", SEQ, "Exhaustive enumeration of histories on the real layers and the real event loop: a bottom layer whose arrivals, partial transfers, room and end the explorer decides, under virtual time, and the library's own pipes and loopbacks.", [{"h": "h_iolayers", "p": {"depth": (3, 4)}, "what": "layer stacks"}, {"h": "h_iopair", "p": {"depth": (4, 6)}, "what": "pipes and loopbacks"}],
      "18 stacks of trace, buffer and bandwidth-shaping layers (off, burst, trickle, latency), 3 kinds of reader, limited and unlimited room, fresh, reconnected (after either side ended it) and accepted connections; all sequences of 3 (thorough 4) arrivals, pauses, writes, room, ends, hang-ups, disconnects and passing time; pipes and loopbacks with 6 pairs of stacks and all sequences of 4 (6) operations")
check("C08", SEQ, "Exhaustive enumeration of headers, their mutations and their fragmentation on the real layer, against an independent reading of the PROXY specification; what an outbound layer writes is fed to an inbound one.", ["h_proxy"],
      "v1 and v2 headers of all families and commands with every field mutated, at every split point and byte by byte, followed by application data and an optional disconnect, for all flag sets; first use and use after a reconnect")
check("C57", SEQ, "Exhaustive enumeration on the real code: every message of a grammar at every split against what the grammar put there; every small email written and read again; every address list up to a length.", [{"h": "h_email", "p": {"budget": (3, 4)}, "what": "reader"}, {"h": "h_emailw", "p": {"budget": (3, 4)}, "what": "writer"}, {"h": "h_emailaddr", "p": {"depth": (4, 6)}, "what": "address lists"}],
      "messages with up to 3 (thorough 4) of: 6 headers, bodies, 8 preambles, 11 part data, headers, attachments, nested parts with 3 boundaries, 5 endings, whole, at every split into two and byte by byte; emails with up to 3 (4) deviations over names, groups, 3 recipients, headers, 3 parts, attachments, containers, preamble and epilogue; address lists of up to 4 (6) of 12 tokens")
NOT_APPLICABLE = {}
