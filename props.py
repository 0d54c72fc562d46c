"""Which harness runs decide which property, and within what bounds."""
ASSUME = [
    "The LLVM IR after LTO of the release build with overflow checks, as rustc and LLVM produce it, is the code that is executed symbolically; later code generation is trusted.",
    "Sequentially consistent memory; threads are scheduled cooperatively at blocking operations unless a harness says otherwise.",
    "libc, allocator and file calls behave as modelled in axsym/src/ext.rs (writes reach the file in program order and survive the death of the process; no I/O errors; memory is never exhausted).",
    "Z3 answers are trusted; an unknown answer or an unsupported instruction makes the check fail as undecided.",
]
CRASH = ["The process dies between two file operations (write, truncate, sync, rename, unlink, open); what was written before survives in program order. Power loss that reorders or tears unsynced writes is outside the claim."]
HOOKS = ["51c15467eb11cb295ab3f801aff3d5c0a0034629", "908daea480fa35bdf92cfe7282c405a2a982decb", "31f113cf369629f6bb637db456c1e3774b895b4c", "d3061bbbdb71317bb58bf15ad0d6ed1c05193505", "e0cd08387c1cd5a1ae6b1780271cc713db433d6c"]
PROPS = {}


def prop(pid, jobs, assume=()):
    PROPS[pid] = {"jobs": jobs, "assume": list(assume)}


# C01 committed work survives
prop("C01", [
    {"h": "c01_ack", "reach": ["crash-inside", "crash-after-all"], "bounds": "8 scripts of at most 7 statements/commits over 2-3 tables, flushed or not; symbolic inserted values 0..1000; death before every file operation"},
    {"h": "c01_volume", "reach": ["crash-inside"], "bounds": "log volumes 0..3 records of 3000/12000/20000/33000 bytes before and 4/9000/33000 bytes inside; death before every file operation"},
    {"h": "c01_evict", "reach": ["crash-inside"], "bounds": "cache of 10 or 16 pages and more data than that; 4 scripts; death before every file operation"},
    {"h": "c01_cycles", "reach": ["all-cycles"], "bounds": "3 cycles of work, death, reopening"},
    {"h": "c02_mix", "args": [3], "args_thorough": [5], "reach": ["crash-inside"], "bounds": "every script of that many steps out of 9 (autocommit and two sessions); death before every file operation"},
], CRASH)
# C02 nothing else survives
prop("C02", [
    {"h": "c02_atomic", "reach": ["crash-inside", "crash-after-all"], "bounds": "9 scripts with open, rolled back, dropped and failed transactions; symbolic values; death before every file operation"},
    {"h": "c02_mix", "args": [4], "args_thorough": [5], "time": 110, "reach": ["crash-inside"], "bounds": "every script of that many steps out of 9 (autocommit and two sessions); symbolic values; death before every file operation"},
    {"h": "c02_undone", "bounds": "an UPDATE of an open or rolled-back transaction before the death"},
    {"h": "c01_evict", "reach": ["crash-inside"], "bounds": "cache of 10 or 16 pages, open and rolled-back transactions larger than the cache"},
], CRASH)
# C08 reopening
prop("C08", [
    {"h": "c08_recover", "reach": ["crash-inside"], "bounds": "5 scripts; death before every file operation of the work and again before every file operation of the recovery; then use, reopening, comparison"},
    {"h": "c08_flush", "reach": ["crash-inside"], "bounds": "death before every file operation of a checkpoint"},
    {"h": "c08_vacuum", "reach": ["crash-inside"], "bounds": "death before every file operation of VACUUM"},
    {"h": "c08_clean", "bounds": "three reopenings without work, 4 histories"},
    {"h": "c01_cycles", "reach": ["all-cycles"], "bounds": "3 cycles of work, death, reopening"},
], CRASH)
# C05 SQL semantics
prop("C05", [
    {"h": "c05_where", "args": [8], "args_thorough": [64], "time": 110, "bounds": "predicates generated over two nullable INT columns (comparison, BETWEEN, IN, IS NULL, AND, OR, NOT, arithmetic), symbolic rows and literals"},
    {"h": "c05_agg", "bounds": "COUNT, SUM, MIN, MAX, AVG over 3 symbolic rows with NULLs, values -4..3"},
    {"h": "c05_group", "bounds": "GROUP BY over 3 symbolic rows"},
    {"h": "c05_join", "bounds": "inner, left, right, full and cross joins of 2x2 symbolic rows, with and without WHERE"},
    {"h": "c05_order", "bounds": "ORDER BY of one and two keys, LIMIT and OFFSET over 3 symbolic rows"},
    {"h": "c05_compose", "bounds": "combinations of clauses"},
    {"h": "c05_project", "bounds": "expressions in the select list"},
    {"h": "c05_distinct", "bounds": "DISTINCT over symbolic rows"},
    {"h": "c05_like", "args": [3], "args_thorough": [4], "bounds": "LIKE with symbolic text and pattern of that length"},
    {"h": "c05_dml", "bounds": "INSERT, UPDATE, DELETE with symbolic predicates and counts"},
    {"h": "c05_func", "bounds": "scalar functions"},
    {"h": "c05_types", "bounds": "comparison and arithmetic across column types"},
    {"h": "c05_mix", "bounds": "arithmetic and comparison between INT, UINT, BIGINT, BIGUINT columns (symbolic values, below and above 2^31) and with FLOAT, DOUBLE (listed values)"},
    {"h": "c05_multi", "bounds": "derived tables, CTEs, self joins, INSERT ... SELECT, 13 forms over 3 symbolic rows"},
    {"h": "c05_known", "bounds": "recorded deviations"},
])
# C06 plan independence
prop("C06", [
    {"h": "c06_index", "reach": ["plan-IndexScan"], "bounds": "28 predicates over a UNIQUE column, 3 symbolic rows with NULLs, with and without statistics"},
    {"h": "c06_composite", "reach": ["plan-IndexScan"], "bounds": "28 predicates over a composite UNIQUE(a, b), 3 symbolic rows with NULLs"},
    {"h": "c06_dml", "bounds": "DELETE and UPDATE with 10 predicates through the index"},
    {"h": "c06_join3", "args_thorough": ["big"], "time": 150, "bounds": "joins of three tables in 6 forms and 5 filters; no statistics or statistics over different sizes; symbolic values 0..2 (thorough 0..3)"},
    {"h": "c06_wide", "args_thorough": ["big"], "time": 150, "bounds": "join of tables of different widths so that the optimizer swaps its sides"},
    {"h": "c06_states", "time": 120, "bounds": "two steps out of 8 (deletes, re-inserts, rolled back work, updates, VACUUM, checkpoint) before an index query"},
    {"h": "c06_known", "bounds": "recorded deviations"},
])
# C03 rolled-back work
prop("C03", [
    {"h": "c03_rollback", "bounds": "12 scripts of inserts, deletes and new tables with and without a unique column, ended in 5 ways (rollback, drop of the session, failing statement, failing batch, batch failing half way), repeated and followed by new work, reopening or VACUUM; symbolic values"},
    {"h": "c03_mix", "args": [4], "args_thorough": [5], "time": 120, "bounds": "every script of that many steps out of 8 kinds on one session and autocommit, with and without a unique column; everybody reads after each step"},
    {"h": "c03_stmt", "bounds": "8 statements that fail at their second or later row, autocommit or inside a session that goes on and commits; symbolic values"},
    {"h": "c03_ddl", "bounds": "8 scripts of CREATE, DROP and CREATE UNIQUE INDEX mixed with rows, ended by rollback, drop, failing batch or the end of the process; then new work, VACUUM, reopening"},
    {"h": "c03_update", "bounds": "rolled back UPDATE (recorded finding)"},
    {"h": "c03_reinsert", "bounds": "rolled back delete and re-insert of one key (recorded finding)"},
])
# C04 snapshots
prop("C04", [
    {"h": "c04_reads", "args": [3], "args_thorough": [5], "time": 120, "bounds": "every script of that many steps out of 10 kinds on two sessions and autocommit; both sessions and autocommit read after each step; symbolic values"},
    {"h": "c04_conflict", "args": [4], "args_thorough": [5], "reach": ["conflict"], "time": 120, "bounds": "every interleaving of that many steps of two writers of the same rows; at most one of two conflicting transactions commits"},
    {"h": "c04_update", "bounds": "UPDATE of another session (recorded finding)"},
])
# C07 constraints
prop("C07", [
    {"h": "c07_keys", "args": [2], "args_thorough": [3], "time": 120, "bounds": "every script of that many statements out of 8 kinds against PRIMARY KEY and UNIQUE(a), keys 1..3 and symbolic values 0..3"},
    {"h": "c07_null", "bounds": "8 ways of writing NULL into a NOT NULL column"},
    {"h": "c07_multi", "bounds": "PRIMARY KEY(a, b), UNIQUE(a, b), UNIQUE(a) with UNIQUE(b), constraints over 2 to 4 columns of different types and sizes; three rows of symbolic values and NULLs"},
    {"h": "c07_index", "bounds": "CREATE UNIQUE INDEX over three rows of symbolic values, after deletes, rolled back inserts and updates; then inserts, reopening"},
    {"h": "c07_sessions", "args": [4], "args_thorough": [6], "bounds": "every interleaving of that many steps of two sessions and autocommit inserting symbolic values that may collide"},
    {"h": "c07_update", "bounds": "UPDATE of a UNIQUE column (recorded finding)"},
])
# C09 reopening
prop("C09", [
    {"h": "c09_reopen", "bounds": "created with one of 9 configurations, reopened with another of 9; 4 endings of an open session, checkpointed or not; constraints, names and new work afterwards"},
    {"h": "c09_cycles", "bounds": "6 cycles of work, rolled back work, schema changes, VACUUM and reopening"},
    {"h": "c09_mix", "args": [3], "args_thorough": [4], "time": 120, "bounds": "every script of that many steps out of 8 kinds with a reopening after any of them"},
])
# C10 the B+tree is an ordered map
prop("C10", [
    {"h": "c10_any", "args": [9, 3], "args_thorough": [9, 4], "time": 150, "reach": ["removed", "replaced"], "bounds": "every sequence of that many operations (insert, upsert, update, remove; small and overflowing payloads) with symbolic keys over BIGUINT, BIGINT, TEXT and composite keys; structure, lookups and scans after every operation"},
    {"h": "c10_one", "args": [9, 14, 1], "args_thorough": [9, 36, 1], "time": 150, "reach": ["three-levels", "removed", "replaced"], "bounds": "trees of that many rows built in several orders, then one operation with a symbolic key and a payload of any of the lengths; 4 key types, page 4096, 3 tree shapes"},
    {"h": "c10_sweep", "args": [16], "args_thorough": [40], "time": 150, "reach": ["removed"], "bounds": "trees of up to that many rows filled and emptied in several orders with mixed payload sizes, then filled again; structure after every operation"},
    {"h": "c10_grow", "args": [24], "args_thorough": [60], "time": 60, "bounds": "rows grow and shrink between a few bytes and several pages"},
], ["Keys range over a bounded symbolic interval and payload lengths over the lists in harness/src/c10.rs."])
# C11 one owner per page
prop("C11", [
    {"h": "c11_hist", "args": [2], "args_thorough": [4], "time": 150, "reach": ["free-pages"], "bounds": "7 kinds of work over 4 tables of large and small rows, a symbolic row picked, autocommit, commit, rollback or reopening, then VACUUM, reopening, delete-all or DROP; 2 configurations (thorough: 4) of page size, cache and tree shape; the whole file is audited at every quiescent point"},
    {"h": "c11_mix", "args": [4], "args_thorough": [5], "time": 150, "reach": ["free-pages", "dropped-under-reader"], "bounds": "every script of that many steps out of 10 kinds (inserts, updates, deletes, VACUUM, sessions, reopening, CREATE and DROP TABLE), audit after every step"},
    {"h": "c11_reuse", "reach": ["free-pages"], "bounds": "4 rounds of 6 kinds of the same work, 4 row lengths: the file is no larger after the fourth round than after the second"},
    {"h": "c11_index", "reach": ["free-pages"], "bounds": "unique indexes on texts of 700..6000 bytes, 4..16 rows, deletes picked by a symbolic key, VACUUM, DROP, reopening"},
    {"h": "c10_one", "args": [9, 14, 1, "pages"], "args_thorough": [9, 24, 1, "pages"], "bounds": "one tree of that many rows in a file of its own, one operation with a symbolic key"},
    {"h": "c10_sweep", "args": [16, "pages"], "args_thorough": [32, "pages"], "time": 150, "bounds": "trees filled and emptied in several orders, all pages audited after every operation"},
])
# C16 any statement
prop("C16", [
    {"h": "c16_bytes", "args": [1], "args_thorough": [2], "time": 150, "reach": ["refused"], "bounds": "up to that many symbolic bytes (one of every kind the lexer tells apart) as a statement or after 4 valid beginnings"},
    {"h": "c16_mutate", "args": [0, 40], "args_thorough": [0, 40, "all"], "time": 150, "reach": ["refused", "accepted"], "bounds": "40 valid statements, at every position: cut off, byte removed, word doubled, multi-byte character inserted (thorough: any symbolic byte put in or over)"},
    {"h": "c16_expr", "args": [0, 40], "args_thorough": [0, 40, "all"], "time": 200, "reach": ["refused", "accepted"], "bounds": "33 operators and functions over every column type and symbolic or extreme literals in 9 places of statements, in autocommit and in a session"},
    {"h": "c16_stmt", "reach": ["refused", "accepted"], "bounds": "148 statements wrong for the schema or at the edge of the grammar, in autocommit, in a session, in a batch"},
    {"h": "c16_deep", "reach": ["refused", "accepted"], "bounds": "12 kinds of nesting and chaining, 40 to 4000 deep; every thread has the stack it is created with and a frame takes at least 64 bytes of it"},
    {"h": "c16_rows", "bounds": "rows with 270 versions, values of 30 and 70 kB, 120 columns, names of 5000 bytes"},
], ["Bounded time means less than 400 million IR instructions on a path.", "Stack use is counted from allocas and 64 bytes per frame, not from machine frames."])
# C14 several threads
prop("C14", [
    {"h": "c14_pair", "args": [1], "args_thorough": [2], "threads": True, "time": 150, "reach": ["refused"], "bounds": "every pair of 17 client scripts (inserts of small and large rows, of one key by both, deletes, updates, reads, joins, CREATE TABLE, sessions over two tables, checkpoint) on two workers; every schedule that differs from round robin in at most that many places, a place being any attempt to take a lock or to get a turn"},
    {"h": "c14_pair", "args": [1, 3, 4, 16, 3], "args_thorough": [1, 0, 17, 16, 3], "threads": True, "time": 120, "bounds": "the same with a cache of 16 pages and three workers (quick: four of the scripts against all)"},
    {"h": "c14_trio", "args": [1, 2], "args_thorough": [2, 3], "threads": True, "time": 100, "bounds": "10 combinations of three clients on two workers, the same bound on schedules"},
    {"h": "c14_known", "threads": True, "bounds": "recorded deviations"},
], ["Threads switch where they take locks (compare-and-swap) or block; a schedule takes at most the stated number of deviations from round robin. Sequentially consistent memory.", "Counterexamples are replayed with everything concrete on the same compiled code in the executor, as the operating system offers no way to force a schedule natively."])
# C12 configurations
prop("C12", [
    {"h": "c12_config", "bounds": "page sizes 4096..65536, 4 tree shapes, 4 workloads with rows up to 30000 bytes"},
    {"h": "c12_evict", "bounds": "the same with caches of 12 or 24 pages, smaller than the data"},
])
# C13 VACUUM
prop("C13", [
    {"h": "c13_mix", "args": [3], "args_thorough": [4], "time": 120, "bounds": "every script of that many steps out of 10 kinds (updates, deletes, rolled back and open work, re-inserted keys, schema changes, reopening) with VACUUM after any of them"},
    {"h": "c13_open", "args": [1], "args_thorough": [2], "reach": ["refused"], "bounds": "a session open during VACUUM: 4 kinds of earlier work, then that many statements out of 6 and commit, rollback or drop; its statements and its COMMIT are refused or take effect together"},
    {"h": "c13_drop", "bounds": "VACUUM after DROP TABLE, committed, rolled back, re-created"},
    {"h": "c13_bounded", "bounds": "8 cycles of 5 kinds of work and VACUUM: the file does not grow after the fourth"},
])
# C15 schema changes
prop("C15", [
    {"h": "c15_ddl", "bounds": "9 scripts of CREATE TABLE, DROP TABLE, CREATE UNIQUE INDEX, in sessions, batches and rolled back"},
    {"h": "c15_mix", "args": [4], "args_thorough": [5], "time": 120, "bounds": "every script of that many steps out of 10 kinds of schema changes in a session and in autocommit"},
    {"h": "c03_ddl", "bounds": "rolled back schema changes, 8 scripts, 4 endings"},
    {"h": "c15_alter", "bounds": "ALTER TABLE ADD COLUMN, DROP COLUMN, SET NOT NULL over symbolic rows"},
])
# C17 the log
prop("C17", [
    {"h": "c17_log", "args": [3], "args_thorough": [4], "time": 120, "reach": ["lost", "truncated"], "bounds": "every script of that many steps out of appending (smallest, 77, 154, 13000 bytes, exactly the room left, 8 more than that, the maximum), forcing, closing and reopening, ending without closing, truncating; symbolic ids, optional fields and payload ends; read in between and at the end with read-ahead 0, 1, 2, 4"},
    {"h": "c17_fill", "reach": ["rejected"], "bounds": "9 records of 6 size patterns over several blocks, forced or closed and reopened after every 1, 2 or 3, read with read-ahead 0..3"},
    {"h": "c17_crash", "reach": ["crash-inside"], "bounds": "death before every file operation of appending, forcing and truncating, again while opening; 4 size patterns, 0..3 records before; the log then goes on"},
], CRASH)
# C18 row versions
prop("C18", [
    {"h": "c18_build", "args_thorough": ["nulls"], "bounds": "rows of 10 shapes (up to 13 columns of 8 types, NULLs in any of the columns that allow it, 1..3 keys), every value, texts of up to 2 arbitrary bytes, decoded at once and after being written and read"},
    {"h": "c18_chain", "args": [2, 2], "args_thorough": [2, 8], "time": 120, "reach": ["trimmed"], "bounds": "up to 2 updates of 2 (8) row shapes, of 3 column patterns to any values and NULLs by the same or later transactions, perhaps deleted; a reader that is one of them, between two of them or later; every outcome (committed, running, rolled back) of each of the others; trimmed for that reader's horizon or an earlier one, written and read again"},
    {"h": "c18_chain", "args": [1, 8], "args_thorough": [2, 8], "time": 60, "reach": ["trimmed"], "bounds": "the same with one update and all 8 row shapes"},
    {"h": "c18_many", "reach": ["trimmed"], "bounds": "rows with 9, 256, 257 and 301 versions"},
])
# C19 values
prop("C19", [
    {"h": "c19_pair", "args": [2], "args_thorough": [3], "time": 130, "reach": ["equal"], "bounds": "every pair of types, every bit pattern of both values; texts of up to that many arbitrary bytes and of 63, 64, 127, 8191, 8192 bytes with arbitrary first and last byte"},
    {"h": "c19_one", "args": [3], "args_thorough": [5], "bounds": "every value of every type stored at every offset 0..8 of a buffer, loaded, cast to its own type"},
    {"h": "c19_cast", "bounds": "every cast between numeric types and booleans, every bit pattern"},
    {"h": "c19_triple", "args": [2], "args_thorough": [2, "float"], "bounds": "triples of values of one type (floats: thorough only, since their order is the mathematical one in c19_pair), texts of up to 2 arbitrary bytes"},
    {"h": "c19_sql", "args": [2], "args_thorough": [3], "time": 100, "reach": ["duplicate"], "bounds": "a column of each type with 2 (3) rows of any integer, of special doubles and any double +-[1/2, 8) with 6 fraction bits, any text of up to 2 letters, booleans, and NULL: ORDER BY, DISTINCT, GROUP BY, WHERE, IN, MIN/MAX, a unique index and the primary key"},
])
# C20 the protocol
prop("C20", [
    {"h": "c20_req", "args": [2], "args_thorough": [4], "bounds": "every request variant twice in a row, any valid text up to that many bytes, any numbers; read in pieces of 1, 3 or all bytes"},
    {"h": "c20_resp", "args": [3], "args_thorough": [4], "bounds": "every response variant, up to 3x3 values of up to 2 bytes, any numbers"},
    {"h": "c20_garbage_req", "args": [10], "args_thorough": [12], "time": 120, "reach": ["valid", "rejected"], "bounds": "every byte string up to that length as a request; 17..19 bytes for ANALYZE; single allocations bounded by 20 MiB"},
    {"h": "c20_garbage_resp", "args": [10], "args_thorough": [13], "time": 120, "reach": ["valid", "rejected"], "bounds": "every byte string up to that length as a response, up to 14 (17) bytes for result sets, 25..27 for VACUUM; single allocations bounded by 20 MiB"},
    {"h": "c20_frame", "reach": ["valid", "rejected"], "bounds": "every stream up to 9 bytes whose length prefix is below 12, near the limit or above it"},
    {"h": "c20_big", "reach": ["sent"], "bounds": "messages one byte below, at and above 16 MiB; 20000 rows"},
    {"h": "c20_server", "args": [6], "args_thorough": [10], "reach": ["served"], "bounds": "the server's loop on one connection: a frame of any bytes up to that length, followed by a valid request, an oversized length, a truncated frame or nothing"},
    {"h": "c20_session", "reach": ["served"], "bounds": "the server's loop over an open database: 4 scripts of requests"},
], ["The socket of the server harness delivers all bytes and accepts all bytes; timeouts do not occur. Rows of a result have as many values as it has columns."])
