NA = {}
SQL = "TLA+ specification of the query language (specs/Sql.tla, evaluated by TLC on generated databases and queries, the laws of the property checked as invariants); every query run by the real engine and its output compared with the specification's"
SQLN = "Bounded: seeded databases and queries over all supported constructs, each case decided exactly by the specification; the engine is bound by comparison of its complete output (ASan/UBSan build)."
for i in (1, 2, 3, 4, 5, 6, 7, 17): C["E%02d" % i] = dict(technique=SQL, level="model_checking", note=SQLN)
PROG = "TLA+ state machine of scripts (specs/SqlProg.tla: one transition per statement over files, variables and control stack, its laws checked by TLC as invariants and action properties); every generated script run by the real engine, its results and the resulting directory compared with the specification's"
for i in (8, 9): C["E%02d" % i] = dict(technique=PROG, level="model_checking", note="Bounded: seeded databases and scripts; each decided exactly by the specification, the engine bound by comparison of its complete output and of every file it leaves (ASan/UBSan build).")

C["E14"] = dict(technique="TLA+ specification of the query language and of scripts (specs/Sql.tla, specs/SqlProg.tla, evaluated by TLC on generated databases, queries and scripts); every query run by the real engine in several modes (threads, small and large buffers, cartesian instead of hash joins, a table from standard input), each output compared with the specification's single result", level="model_checking", note="Bounded: seeded queries and scripts, each decided exactly by the specification; the schedules of threads are those the operating system takes. ASan/UBSan build.")

C["E11"] = dict(technique="TLA+ specification of name resolution (specs/Resolve.tla: state = directory and statements; its laws checked by TLC on every directory); every directory and name replayed in statements run by the real engine, the file read or changed compared with the specification's choice", level="model_checking", note="Exhaustive over directories of up to 2 (thorough 3) of 14 hard file names and 17 names, random larger ones; bound by replay on the engine (ASan/UBSan build).")

C["E15"] = dict(technique="TLA+ state machine of two tables and their files through runs with options of their own (specs/Csv.tla: writing, parsing, quoting standards, delimiters, terminators, header; TLC checks that every file reads back as its table); every history replayed run by run on the real engine, output and files compared byte for byte", level="model_checking", note="Bounded: seeded histories of up to 6 runs over SELECT (plain, derived, grouped, ordered, joined, union, from stdin, INTO), UPDATE and DELETE. The csv library itself is the stand-in of /verif/shim. ASan/UBSan build.")
C["E16"] = dict(technique="TLA+ grammar of supported scripts and of faults (specs/Reject.tla; TLC checks that derived scripts are well formed and that faults in words are not); every script run by the real engine: derived ones must run, faulty ones must be refused with a status and a message before anything is printed or changed, stirred ones must end", level="model_checking", note="Bounded: seeded scripts with one fault each out of ~200 (unknown names, unsupported constructs at every place of the grammar, wrong counts, unbalanced brackets and blocks, words missing or doubled), and arbitrary edits. ASan/UBSan build.")

C["E13"] = dict(technique="TLA+ state machine of a library handle and the files (specs/Api.tla: planned script, position, open result, variables; TLC checks that rows are handed out once and in order and nothing else moves meanwhile); every session replayed call by call on the real library", level="model_checking", note="Bounded: generated sessions of up to 14 calls with scripts of 22 kinds of statement, each answer, all printed rows and the files at the end compared (ASan/UBSan build).")
C["U08"] = dict(technique="TLA+ model of the queue's protocol at the level of single shared accesses (specs/FifoConc.tla; TLC explores every interleaving of producers, consumer and closing, with spurious wakeups, for order, loss, overrun and stranded threads); the real util/fifo.c run under a controlled scheduler that switches threads at every access to shared memory, lock and condition; recorded call/return histories, including the threads left waiting, checked by TLC against the TLA+ specification of what callers may see (specs/FifoTrace.tla)", level="model_checking", note="Protocol: exhaustive within 6 (12 thorough) configurations of up to 3 producers. Code: sampled schedules (600000 quick, 14 million thorough) of generated programs; sequentially consistent memory.")

C["E10"] = dict(technique="TLA+ state machine of scripts of modifying statements over files and the temporary file being filled, which may die, be interrupted or fail at every step (specs/Crash.tla; TLC checks that the files are always those before or after a statement and that nothing is left after an interruption); every script replayed on the real engine with one death, signal, failing call or full disk at a chosen file-system call (link-time wrappers, drivers/fault.c), the directory afterwards compared with the specification's states", level="model_checking", note="Bounded: 240 (thorough 1200) seeded scripts of one to three statements of 21 kinds, also in loops; a share of 6 % (thorough: half) of all pairs of fault and call. Faults lie before file-system calls of the engine and of the stand-in csv library; the machine itself does not crash. ASan/UBSan build.")
