#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": observe or [], "hook_needed": hook}})

p("U01", "Growable array behaves as a mathematical sequence",
  "After any history of appends, front/middle inserts, range inserts, overwrites, erases, resizes, reserves, shrinks, concatenations and sorts, the array holds exactly the sequence of elements those operations describe, with every other element unmoved and unchanged. Elements exposed by a zeroing resize read as zero. No operation with valid arguments touches memory outside the array, whatever its current capacity and element size.",
  ["histories", "inputs"], "every finite history of operations with in-range arguments, every element size, every capacity/size relation (full, empty, just shrunk)",
  "The container has no tests of its own; the engine tests reach a few append/erase patterns at a few sizes. Faults hide in capacity boundaries reached only by particular operation orders.",
  ["util/vec.c", "util/vec.h"], [("realloc growth and memmove of the tail", "vec_insert_iter, vec_insert_one, vec_erase_iter, vec_add_one_front"), ("capacity is always > size", "vec_reserve, vec_add_one")],
  [("vec", "sequence of fixed-size elements", "util/vec.h")], ["vec_at/vec_begin/size after each operation"])
p("U02", "Text buffer content, length and terminator stay exact",
  "After any history of construct, copy, append, bounded copy/append, formatted print, push, clear, resize, take/export and find-and-replace (case-sensitive or not, one or all, bounded replacement text) a text buffer holds exactly the described text, its length equals that text's length and it is NUL-terminated. Find-and-replace replaces the leftmost non-overlapping occurrences left to right, never rescans inserted text, terminates for every search text including the empty one, and copies never read beyond the given length of a non-terminated source.",
  ["histories", "inputs"], "all histories and all texts (without embedded NUL for the C-string entry points), all search/replacement lengths",
  "No unit tests; SQL tests use a single REPLACE. Shrinking/growing replacements at the capacity edge, empty search text and exact-length sources are never sampled.",
  ["util/stringy.c", "util/stringview.c", "util/stringy.h"], [("NUL kept at end", "_null_terminate_"), ("scan resumes after the replacement", "string_find_replace_limited")],
  [("string", "byte sequence + terminator", "util/stringy.h")], ["string_c_str, size after each operation"])
p("U03", "Linked lists keep order, links and ownership under every history",
  "A list built by any history of push, enqueue, pop/dequeue, import/export of nodes, removal and deletion of any member holds exactly the described sequence: forward and backward links agree, the head is the first element, count/at/front/back agree with the sequence. A node that has been exported or removed is reachable from no list, and removed data is handed back exactly once.",
  ["histories"], "every history of operations on one or several lists, including moving nodes between lists and removing first/middle/last/only element",
  "No unit tests; the engine only exercises a few orders.",
  ["util/node.c", "util/node.h"], [("relink neighbours", "node_export, node_push_import, node_enqueue_import"), ("head moves when first goes", "node_remove, _node_pop")],
  [("node", "doubly linked cell", "util/node.h")], ["walk both directions after each operation"])
p("U04", "Bit set and variable-size element store return what was stored",
  "For every history a bit container returns for each index below its size the last bit written there, or false for a position newly exposed by a resize; writes never change other bits. A variable-size element store returns, for each position, exactly the bytes and length last stored at that position after any history of push, insert, remove, pop, clear and shrink, including integers pushed as text.",
  ["histories"], "every history; sizes across machine-word boundaries; grow/shrink/regrow orders",
  "No unit tests; word-boundary and regrow behaviour needs specific histories.",
  ["util/vec.c", "util/flex.c", "util/flex.h"], [("word index/offset", "bitvec_set, bitvec_at, bitvec_resize"), ("offset pairs into raw buffer", "flex_insert, flex_pop_back")],
  [("bitvec", "packed booleans", "util/vec.h"), ("flex", "sequence of byte strings", "util/flex.h")], ["every index after each operation"])
p("U05", "Hash map and set are exact finite maps modulo the key mode",
  "For every history of insertions, overwrites, lookups and clears a hash map behaves as a finite map and a hash set as a finite set: a lookup returns the value last stored under an equivalent key and nothing for a key never stored. Keys are equivalent when equal as byte strings after lowering case (caseless mode) and/or dropping all trailing spaces (trim mode), for keys of every length including empty ones; values are kept in first-insertion order; growth and collisions never lose, merge or duplicate entries.",
  ["histories", "inputs"], "all key strings, all four key modes, all initial sizes, all numbers of entries and growth points",
  "The existing hash tests insert a fixed list of keys in a fixed order once per mode.",
  ["util/hashmap.c", "util/hashmap.h"], [("key bytes copied and normalised", "_hash, _hash_nocase, _hash_rtrim, _hash_nocase_rtrim"), ("open addressing and rehash", "_get_entry, _increase_size")],
  [("hashmap", "finite map key class -> value", "util/hashmap.h")], ["hashmap_nget/set_nhas for all keys of the domain after each operation, values order"])
p("U06", "Multimap and composite-key map keep every value under the right key",
  "A multimap returns for each key exactly the values stored under equivalent keys, in insertion order. A composite-key map distinguishes keys element by element: two keys denote the same entry exactly when they have the same number of elements and equal corresponding elements under the key mode, so that moving characters between neighbouring elements always gives a different key; clear empties both.",
  ["histories", "inputs"], "all key tuples (empty elements, shared concatenations, permutations), all modes, sizes and growth points",
  "Existing tests use a handful of fixed tuples.",
  ["util/hashmap.c", "util/hashmap.h"], [("per-element locations and lengths compared", "_composite_eq, _composite_get_entry"), ("one value vector per key", "multimap_nset")],
  [("compositemap", "finite map tuple -> value", "util/hashmap.h"), ("multimap", "key -> sequence", "util/hashmap.h")], ["full lookup of domain after each operation"])
p("U07", "Bounded queue delivers every element exactly once in order",
  "Under every history of single and bulk adds, gets, peeks, look-aheads, bulk gets with block sizes, iteration, reset and resize, the queue is a bounded FIFO: elements come out exactly once, in insertion order, unmodified, across any number of wrap-arounds. Reported availability, emptiness, fullness and room agree with the content, bulk transfers move as much as fits and leave the rest with the caller, and bulk gets move whole blocks only.",
  ["histories"], "every history on every capacity, including wrap-around at every offset, and producer reservations",
  "No unit tests. The engine uses one capacity for small inputs, so wrap positions are hardly varied.",
  ["util/fifo.c", "util/fifo.h"], [("ring indices modulo buffer size", "fifo_add, fifo_nadd, fifo_nget, fifo_available")],
  [("fifo", "bounded FIFO", "util/fifo.h")], ["results of every call"])
p("U08", "Concurrent queue never loses, duplicates or strands elements",
  "With several producers and one consumer using the locking and waiting operations under any thread schedule, each element added is received exactly once, in per-producer order, the queue never exceeds its capacity, and no data is torn. Every waiting party is eventually released once what it waits for has become true: data arrived, room was made, either of two queues got data, or the queue was closed; no wakeup is lost and no schedule deadlocks.",
  ["schedules", "histories"], "all interleavings of producers, consumer and closer, and spurious wakeups; waiting on one queue, on either of two, on both",
  "No concurrent unit tests; races appear only under rare interleavings that ordinary runs do not produce.",
  ["util/fifo.c", "lib/fqlprocesses.c"], [("head and tail mutexes with condition variables", "fifo_wait_for_add, fifo_wait_for_get, fifo_wait_for_add_either"), ("broadcast on close", "fifo_set_open")],
  [("head/tail/is_open", "shared queue state", "util/fifo.h")], ["API-level call/return events of each thread; blocked threads at quiescence"])
p("U09", "Graph traversal reaches exactly what the roots reach, in BFS order",
  "For every acyclic graph a traversal starts at the roots (marked ones, otherwise the nodes without incoming edges), in order, and returns every node reachable from them at least once and no other node, each at its breadth-first position, then reports the end (a node queued again before its first visit is returned again); a reset repeats the same traversal from the same roots, which stay marked. Removing a node clears every edge to it and returns its data; absorbing another graph keeps all nodes and edges of both.",
  ["inputs", "histories"], "all graphs with two out-edges per node, all root markings, histories of add/remove/consume/traverse",
  "No unit tests; plans in the engine tests are a few shapes.",
  ["util/dgraph.c", "util/dgraph.h"], [("queue-driven traversal", "dgraph_traverse"), ("root discovery", "dgraph_get_roots, _assume_roots")],
  [("dgraph", "node list, edges, roots", "util/dgraph.h")], ["sequence of returned nodes"])
p("U10", "Text comparison is one total order consistent with hashing",
  "Each text comparison mode (exact, caseless, trailing spaces ignored, both) is a total preorder: reflexive, antisymmetric in sign, transitive, with a proper prefix ordered before the longer text unless only ignored characters remain. Two texts compare equal in a mode exactly when they are the same key in the hash containers of that mode.",
  ["inputs"], "all pairs and triples of byte strings without NUL, all four modes, non-terminated sources of exact length",
  "Tests compare a few literals; transitivity and agreement with the hash are relations over pairs and triples.",
  ["util/stringview.c", "util/hashmap.c"], [("byte loop plus padding rule", "stringview_compare, stringview_compare_nocase, stringview_compare_rtrim, stringview_compare_nocase_rtrim")],
  [], ["sign of comparison, set membership"])
p("U11", "Temporary files are removed exactly once and nothing else is removed",
  "At any moment the process tracks exactly the temporary files registered and not yet released; removing one entry, one entry with its file, or all affects exactly those files, each once. When the process is interrupted (INT, QUIT, TERM, HUP) at any point after initialisation all tracked files are removed, files released or never registered survive, and the process ends with a failure status.",
  ["histories", "crash_points"], "every history of register/release/remove and every point at which one of the four signals arrives",
  "No test delivers signals or inspects leftovers.",
  ["lib/fqlsig.c", "lib/fqlsig.h", "util/node.c"], [("list of registered names", "fqlsig_tmp_push, fqlsig_tmp_remove_node, fqlsig_tmp_removeall"), ("signal handler", "fqlsig_cleanexit, fqlsig_init_sig")],
  [("_tmp_file_head", "registered names", "lib/fqlsig.c")], ["directory listing and exit status"])
p("U12", "Value conversions are exact, total and reject malformed numbers",
  "Converting between integer, float and text values yields the value the text denotes (decimal, or hexadecimal with an 0x prefix for integers) and fails, with an error, on malformed or out-of-range text instead of producing a value; integers survive conversion to text and back for the full 64-bit range. The common type of two operands is symmetric: text yields to a number, integer with float gives float, and bounded conversions keep exactly the first characters up to the limit.",
  ["inputs"], "all integers including extremes, all texts over digits/signs/spaces/letters, all limits, all type pairs",
  "SQL tests convert a few small literals.",
  ["lib/field.c", "util/util.c"], [("strtol/strtod with full-consumption check", "str2long, str2double"), ("type lattice", "field_determine_type, field_to_int, field_to_float, field_to_stringview_limited")],
  [("field/field_type", "tagged value", "lib/field.h")], ["return codes and values"])
p("U13", "A variable holds the last assigned value under its declared type",
  "For every history of typing, importing, re-typing, assigning, clearing and resetting, a variable's type is the last one successfully set and its value is the last assigned or imported value converted to that type; a failed conversion is reported. A length limit truncates, fixed-length text is padded to its limit, unlimited types are never cut, a cleared variable is null, and a reset restores the imported value or null.",
  ["histories", "inputs"], "all histories of the operations over all types, limits and values",
  "Tests declare a few variables of one or two types once.",
  ["lib/variable.c", "lib/variable.h", "lib/field.c"], [("type change converts", "variable_set_type"), ("limit and padding", "variable_set_stringview, _append_space")],
  [("variable", "type, value, limit, null flag, import", "lib/variable.h")], ["fields after each operation"])
p("U14", "Path, search and counting helpers follow their text definitions",
  "Splitting a file name yields its name without extension and its extension, where only a dot in the last path component (and not leading it) starts an extension; bounded substring search finds the first occurrence lying wholly within the bound and never reads beyond it. Character counting, membership, removal and lower-casing match their definitions on every text, and the directory listing returns every entry exactly once.",
  ["inputs"], "all texts over letters, dots, slashes, all bounds and positions",
  "Tests call none of these directly.",
  ["util/util.c", "util/util.h"], [("last dot after last slash", "getnoext, getext"), ("bounded scan", "strnstr, charncount")],
  [], ["return values"])

p("E01", "WHERE keeps exactly the rows satisfying the condition",
  "A SELECT with a WHERE clause outputs, in input order, exactly the rows for which the condition is true: comparisons are numeric if either side is numeric and otherwise caseless text ignoring trailing spaces, with LIKE, IN, IS NULL, NOT, AND, OR and parentheses combining as in SQL (three-valued). The result depends only on the row and the condition, not on its position, on neighbouring rows or on how the condition is parenthesised or negated equivalently.",
  ["inputs", "programs"], "all tables and all conditions over the supported predicates, nested to any depth",
  "Tests run some dozens of fixed conditions on three fixed files.",
  ["lib/logic.c", "lib/fqllogic.c", "lib/like.c", "lib/inlist.c", "lib/expression.c"], [("logic tree evaluation", "logicgroup_eval"), ("typed comparison table", "logic_compare*"), ("LIKE translated to a regex", "lib/like.c")],
  [("logicgroup", "condition tree", "lib/logic.h")], ["rows written"])
p("E02", "JOIN output equals the filtered cross product",
  "An inner join outputs exactly the pairs of rows satisfying the join condition, and a left join additionally each unmatched left row once with nulls, for any number of joined tables and any join condition (a left join, or a join with a subquery, that has no equality to hash by is rejected). The set of rows does not depend on whether the engine joins by hashing or by nested scan, on the types of the joined expressions, or on which side of a comparison an expression is written.",
  ["inputs", "programs", "configurations"], "all pairs/triples of tables with duplicates, nulls, empty tables; all join conditions with equalities and residual predicates; hash and cartesian execution",
  "Tests compare row counts on one fixed data set.",
  ["lib/fqllogic.c", "lib/fqlselect.c", "lib/logic.c", "lib/table.c", "util/hashmap.c"], [("hash join probe and build", "lib/fqllogic.c join functions"), ("join condition classified by side", "_resolve_join_conditions in lib/query.c")],
  [("hashjoin", "key -> right rows", "lib/table.h")], ["rows written, multiset"])
p("E03", "GROUP BY partitions rows and aggregates cover each group exactly",
  "GROUP BY outputs exactly one row per distinct combination of grouping values (caseless, trailing spaces ignored for text), and COUNT, SUM, MIN, MAX and AVG are computed over exactly the rows of the group; without GROUP BY an aggregate query outputs one row over all rows. HAVING keeps exactly the groups for which its condition on grouping values and aggregates holds.",
  ["inputs", "programs"], "all tables, grouping lists, aggregate lists and HAVING conditions, including empty input and numeric keys",
  "Tests check row counts for a few groupings.",
  ["lib/group.c", "lib/aggregatefn.c", "lib/aggregate.c", "lib/fqlselect.c"], [("composite key map of group values", "group_record"), ("running aggregates per group", "lib/aggregatefn.c")],
  [("group", "key tuple -> aggregate state", "lib/group.h")], ["rows written"])
p("E04", "ORDER BY outputs a sorted permutation; TOP is a prefix",
  "ORDER BY outputs a permutation of the unordered result in which every adjacent pair respects the key list with its ascending/descending flags, keys being compared numerically for numbers and as caseless trimmed text otherwise, by expression, alias or ordinal. TOP n outputs the first min(n, total) rows of the result it limits.",
  ["inputs", "programs"], "all tables, key lists, directions, TOP values, combined with grouping, joins, unions and INTO",
  "Tests check few orders on one file.",
  ["lib/order.c", "lib/fqlselect.c", "lib/fixedwrite.c"], [("sort of row offsets in temp output", "lib/order.c"), ("early stop at the TOP count", "lib/fqlselect.c")],
  [("order", "entries with keys and file offsets", "lib/order.h")], ["rows written, in order"])
p("E05", "DISTINCT and UNION ALL keep exactly the right rows",
  "SELECT DISTINCT outputs each distinct combination of output values (text caseless with trailing spaces ignored, null like empty text) exactly once, first occurrence first. UNION ALL outputs the rows of every operand, in operand order, each as often as the operand produces it, whatever operands (grouped, distinct, joined, filtered) are combined; operands with different column counts are rejected.",
  ["inputs", "programs"], "all tables and operand combinations",
  "Tests run a handful of unions of fixed tables.",
  ["lib/fqlselect.c", "lib/fqlplan.c", "lib/group.c"], [("union processes chained", "lib/fqlplan.c"), ("distinct as group", "lib/group.c")],
  [], ["rows written"])
p("E06", "Subqueries behave as the table or value they compute",
  "A subquery in FROM or JOIN behaves exactly as a table with its result rows, a scalar subquery as the single value it yields (null when it yields no row), and IN (subquery) as membership in its single-column result, at any nesting depth and on any input. Replacing a subquery by a file holding its result never changes the outer result.",
  ["inputs", "programs"], "all nestings of supported subqueries over all tables",
  "Tests use fixed nestings over fixed data.",
  ["lib/subquery.c", "lib/inlist.c", "lib/fqlplan.c", "lib/reader.c", "lib/fqlselect.c"], [("subquery reader", "lib/subquery.c"), ("hash set for IN", "lib/inlist.c")],
  [], ["rows written"])
p("E07", "Scalar expressions evaluate exactly or fail, never crash",
  "Every scalar expression over literals, columns and variables - arithmetic, bit operators, unary signs, CASE, CAST and the supported functions - yields the value defined for its operand types on every input, with integer arithmetic exact in 64 bits. Where no value is defined (overflow, division or modulo by zero, malformed number) the statement fails with an error; no input terminates the process abnormally or reads outside the argument texts.",
  ["inputs", "programs"], "all expressions over the supported operators and functions, all argument values including empty text, zero, negative and extreme numbers, both character modes",
  "Tests evaluate each operator on one or two small literals.",
  ["lib/scalarfn.c", "lib/operation.c", "lib/switchcase.c", "lib/expression.c", "lib/function.c"], [("per-type operator table", "lib/function.c, lib/scalarfn.c"), ("overflow checks", "lib/scalarfn.c")],
  [], ["value printed, exit status"])
p("E08", "Control flow runs exactly the selected statements",
  "A script executes its statements in order; IF/ELSE runs exactly the selected branch, WHILE repeats its block while the condition holds, nesting is arbitrary, and each DECLARE/SET assignment is visible to all later statements of its scope and to nothing earlier; a variable declared in the block of an IF or WHILE hides an outer one of that name until the block ends. A failing statement stops the script with a failure status, and results of completed statements stay.",
  ["programs", "inputs"], "all nestings of blocks, IF/ELSE, WHILE, declarations, variable assignments and selects",
  "Tests run a few small fixed scripts.",
  ["lib/fqlbranch.c", "lib/fqlset.c", "lib/query.c", "lib/libfql.c", "lib/variable.c", "lib/scope.c"], [("next-query links between statements", "lib/query.c, lib/libfql.c"), ("variable scope", "lib/scope.c")],
  [("query list, variables", "program counter and store", "lib/fqlhandle.h")], ["output sequence"])
p("E09", "UPDATE, DELETE and SELECT INTO change exactly their target",
  "UPDATE changes exactly the assigned columns of exactly the rows satisfying the condition, DELETE removes exactly those rows, all other rows, their order, the header and every other file stay as they were; SELECT INTO creates a file that reads back as exactly the query's result. An existing file is never overwritten by SELECT INTO unless overwriting was requested, and a failed or rejected statement leaves every pre-existing file as it was.",
  ["inputs", "programs", "histories", "configurations"], "all tables, conditions, assignments, joins in the modification, existing/absent targets, sequences of statements reading what earlier ones wrote",
  "Tests do few modifications on one file and do not compare the untouched rest.",
  ["lib/fqlupdate.c", "lib/fqldelete.c", "lib/fqlselect.c", "lib/writer.c", "lib/libcsvwrite.c"], [("write to a temporary, rename at the end", "lib/libcsvwrite.c, lib/writer.c"), ("overwrite check", "lib/query.c / lib/schema.c")],
  [("files", "directory content", "the file system")], ["directory contents before/after"])
p("E10", "Interruption never leaves a half-written target or lost data",
  "If the process dies, is interrupted or hits a write error at any point of an UPDATE, DELETE or SELECT INTO, each pre-existing file holds either its complete old or its complete new content. After an interrupting signal no temporary file remains.",
  ["crash_points", "fault_sequences", "programs"], "every file-system operation as a crash, signal or failure point, for each kind of modifying statement",
  "No test injects crashes, signals or I/O faults.",
  ["lib/libcsvwrite.c", "lib/fixedwrite.c", "lib/writer.c", "lib/fqlsig.c", "lib/order.c"], [("temporary + rename", "lib/libcsvwrite.c"), ("signal cleanup", "lib/fqlsig.c")],
  [("directory", "files and temporaries", "the file system")], ["directory after kill at each syscall"])
p("E11", "Table names resolve to files by the documented priority",
  "A table name denotes the file chosen by the documented priority: exact name, then exact ignoring case, then ignoring the extension, then ignoring extension and case; a name that matches nothing, or several files at the best matching level, is an error and reads nothing. In strict mode only the exact name matches.",
  ["inputs", "configurations"], "all directory contents and table names, strict and non-strict, in subdirectories and with several dots",
  "Tests use exact or trivially unique names.",
  ["lib/schema.c", "util/util.c"], [("priority scan of the directory", "schema resolve file in lib/schema.c")],
  [], ["which file's content is read, or failure"])
p("E12", "Schemas and fixed-width layouts read every field exactly",
  "A file read through a schema yields for each record the fields its layout defines - delimiter, header presence, column names, or fixed positions and widths - and the column a name denotes is the same in every clause; writing in a fixed-width layout pads or cuts every field to its width so that reading it back gives the same rows. Columns are matched caselessly, ambiguous or unknown names are rejected.",
  ["inputs", "configurations", "programs"], "all layouts and file contents; all uses of column names, aliases, ordinals and table qualifiers",
  "Tests use three files in one layout each.",
  ["lib/schema.c", "lib/fixedread.c", "lib/fixedwrite.c", "lib/libcsvread.c", "lib/record.c"], [("schema loading and column assignment", "lib/schema.c"), ("fixed slices", "lib/fixedread.c, lib/fixedwrite.c")],
  [], ["rows read and written"])
p("E13", "Library stepping gives the same rows and states as execution",
  "Driving the library by steps returns each result row exactly once, in the order and with the field values the command-line run prints, then reports the end; stepping past the end, abandoning a statement midway, resetting, preparing again and running several statements through one handle all give the result a fresh run gives. Failures are reported by status and leave the handle usable or cleanly destroyable.",
  ["histories", "programs"], "all call sequences of make plans, step, execute, reset, field access over multi-statement scripts",
  "API tests run each script once from start to end.",
  ["lib/libfql.c", "lib/include/fql.h", "lib/fqlselect.c"], [("step loop", "fql_step, fql_exec, fql_exec_plans"), ("plan reset", "lib/libfql.c, lib/fqlplan.c")],
  [("handle", "prepared statements, current position", "lib/fqlhandle.h")], ["return codes and field values"])
p("E14", "Execution options never change the result",
  "Threaded execution, every pipeline buffer size, hash versus cartesian joining, and reading from a file, a pipe or standard input give the same result for the same query and data, and every run terminates. With threads only the order of rows may differ where the query does not fix it.",
  ["schedules", "configurations", "programs", "inputs"], "all schedules and pipe factors over queries with joins, unions, grouping and subqueries, and data sizes below, at and above every buffer size",
  "Tests run one configuration each, at one data size.",
  ["lib/fqlprocesses.c", "lib/process.c", "lib/libfql.c", "util/fifo.c", "lib/fqlplan.c"], [("process network over queues", "lib/fqlprocesses.c"), ("buffer sizing", "lib/fqlplan.c")],
  [("fifos", "records in flight", "lib/process.h")], ["rows written, termination"])
p("E15", "Delimited output reads back as the same rows",
  "Every value written - with delimiters, quotes, line breaks, leading or trailing spaces, empty text - reads back as the same value, record boundaries are preserved, and the header names the output columns. Output delimiter, terminator and header options affect only what they name, and the output of a join takes the format of its left side.",
  ["inputs", "configurations"], "all field contents and all combinations of delimiters, header options and quoting",
  "Tests use fields without special characters.",
  ["lib/libcsvwrite.c", "lib/writer.c", "lib/libcsvread.c", "lib/schema.c"], [("quoting on write", "lib/libcsvwrite.c and libcsv"), ("header rules", "lib/schema.c, lib/fqlselect.c")],
  [], ["bytes written, rows read back"])
p("E16", "Unsupported or malformed queries are rejected without effect",
  "A script with a syntax error, an unsupported feature, an unknown column, table or variable, or mismatching counts and types is rejected as a whole with a failure status and a message before it has produced any output or changed any file. No script, however malformed, crashes or hangs the process.",
  ["programs", "inputs"], "all token sequences, all listed unsupported constructs in every position, mutations of valid scripts",
  "The failure tests use a few dozen fixed scripts.",
  ["lib/antlr/listenerinterface.cpp", "lib/antlr/treewalker.cpp", "lib/query.c", "lib/schema.c", "lib/libfql.c"], [("listener marks unsupported rules", "lib/antlr"), ("plan building checks", "lib/fqlplan.c, lib/schema.c")],
  [], ["exit status, output, files"])
p("E17", "NULL propagates and is distinguished from values everywhere",
  "A null operand makes arithmetic, string functions and comparisons null: no row is selected by a comparison with a null, IS NULL and IS NOT NULL select exactly the null and non-null values, ISNULL replaces exactly nulls, and CASE without a matching branch is null. Grouping, DISTINCT and sorting put nulls together with empty text. An unmatched left-join side is null in every clause, and null assigned to a variable stays null until the next assignment.",
  ["inputs", "programs"], "all expressions and conditions with nulls from literals, variables, left joins, CASE and empty scalar subqueries",
  "Tests cover a few null literals.",
  ["lib/expression.c", "lib/logic.c", "lib/scalarfn.c", "lib/fqllogic.c"], [("FQL_NULL return code", "lib/expression.c, lib/logic.c")],
  [], ["rows written"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
