prop("C01", "Commands never inherit bfs's own file descriptors",
     "A command run by -exec, -execdir, -ok or -okdir inherits only the standard streams of bfs: every descriptor that bfs itself opens or duplicates "
     "(directories, output files, pipes, terminals) is created close-on-exec, atomically in the call that creates it, and never loses that flag.",
     ["inputs", "schedules", "configurations"],
     "Every descriptor-creating call in the program, whatever expression is evaluated and whichever thread opens the descriptor.",
     "A test sees a leak only if it runs a command while that particular descriptor happens to be open; the suite has one such test with one descriptor.",
     ["src/dir.c", "src/bfstd.c", "src/bftw.c", "src/ioq.c", "src/ctx.c", "src/parse.c", "src/color.c", "src/xspawn.c"],
     [("O_CLOEXEC in every open-like call", "src/dir.c bfs_opendir, src/ioq.c ioq_dispatch_async"), ("pipe_cloexec(), dup_cloexec(), mode \"e\"", "src/bfstd.c, src/color.c")],
     "known-bits dataflow over flag arguments of all fd-creating call sites",
     "Known-ones analysis of flags through SSA, parameters, returns and fields for every fd-creating call (including io_uring submissions and stdio modes). "
     "Trusts glibc/liburing/kernel for descriptors they create internally.")
prop("C04", "Buffered output is flushed before a command or prompt runs",
     "Whenever an action starts a command or asks the user a question, everything that actions evaluated earlier have written to standard output and to -fprint-style files "
     "has already been flushed to the operating system, so the two outputs never interleave out of order and a command sees complete files.",
     ["inputs", "histories"],
     "Every path from the evaluation of an expression (or the final flush of pending -exec ... + batches) to a process-creating call or prompt, and every open output file.",
     "Tests compare final output of a handful of expressions on a terminal-less stdout; reordering shows only with particular combinations of actions and redirections.",
     ["src/eval.c", "src/exec.c", "src/ctx.c", "src/xspawn.c"],
     [("bfs_ctx_flush() before spawning", "src/exec.c bfs_exec_spawn / src/eval.c eval_exec"), ("flush loop over all registered files", "src/ctx.c bfs_ctx_flush")],
     "path-sensitive typestate over process-creation paths",
     "Every path from an expression evaluator to fork/posix_spawn or the prompt passes a function that flushes every registered stream with nothing written in between. "
     "Error return of the flush is C14's subject.")
prop("C05", "-ok and -okdir run a command only after an affirmative answer",
     "A command given to -ok or -okdir is started only after the user was asked about it and replied affirmatively in the current locale; end of file, a read error, "
     "an empty line or any other reply means the command does not run.",
     ["inputs", "histories", "fault_sequences"],
     "Every path from evaluation to process creation, for every answer (including EOF and read errors) and every batching state.",
     "Tests feed a few y/n answers from a pipe; they cannot show that no path skips the question.",
     ["src/exec.c", "src/eval.c", "src/bfstd.c", "src/parse.c"],
     [("BFS_EXEC_CONFIRM", "src/exec.c bfs_exec_spawn / bfs_exec_confirm"), ("ynprompt()", "src/bfstd.c")],
     "path-sensitive typestate + parse-table check",
     "All paths to process creation know the confirmation flag clear or the prompt's result positive; the prompt is positive only when a line was read and matched. "
     "Trusts regexec and the locale database.")
prop("C06", "Signal handlers are async-signal-safe and preserve errno",
     "Code that bfs runs in a signal handler (dumping state on SIGINFO/SIGUSR1, resizing on SIGWINCH, cleaning up on a fatal signal) calls only async-signal-safe functions, "
     "returns with errno unchanged, and modifies shared data only atomically, so a signal may arrive at any instant without corrupting the interrupted program.",
     ["schedules", "inputs"],
     "Every instruction boundary at which a signal can be delivered, in every thread.",
     "A test delivers a signal at a few instants; the window in which an unsafe call corrupts the heap or errno is a few instructions wide.",
     ["src/sighook.c", "src/eval.c", "src/color.c", "src/bar.c", "src/bfstd.c", "src/xspawn.c"],
     [("sigdispatch(), reraise()", "src/sighook.c"), ("siginfo and SIGWINCH hooks", "src/eval.c, src/bar.c")],
     "call-graph effect analysis + path-sensitive errno dataflow",
     "Call graph from every installed handler (hooks resolved through function pointers) against the POSIX/glibc async-signal-safe list; errno equality proved on each return path. "
     "Abnormal termination is exempt.")
prop("C07", "A forked child is safe up to exec and never runs bfs code",
     "Between fork and exec the child calls only async-signal-safe functions; bfs's signal handlers are reset before the child's signals are unblocked, so no handler of bfs ever runs in the child, "
     "and the command starts with the original signal mask. If the command cannot be executed the child reports the error to bfs and exits immediately without flushing or returning into bfs, and bfs's own signal mask is restored on every path.",
     ["schedules", "fault_sequences"],
     "Every interleaving of signals with spawning and every failure of the calls in between.",
     "Tests spawn commands without signals or failing system calls in the window.",
     ["src/xspawn.c", "src/sighook.c"],
     [("bfs_fork_spawn(), bfs_spawn_exec()", "src/xspawn.c"), ("sigreset()", "src/sighook.c")],
     "path-sensitive typestate with a split child/parent role + call-graph effect analysis",
     "Trusts posix_spawn() implementations when that strategy is chosen.")
prop("C08", "Background I/O threads touch only thread-safe functions and data",
     "The background I/O threads never call a function that is not thread-safe, never change process-wide state (working directory, environment, locale) or write to the program's streams, "
     "and share mutable data with the main thread only through atomic operations; the unsynchronised fields of the queue are written only while no thread runs.",
     ["schedules"],
     "Every interleaving of the background threads with the main thread.",
     "Races need a particular interleaving; the suite is not run under a race detector and samples few schedules.",
     ["src/ioq.c", "src/dir.c", "src/stat.c", "src/thread.c"],
     [("ioq_work()/ioq_ring_work()", "src/ioq.c"), ("atomics on shared fields", "src/ioq.c")],
     "thread-reachability effect analysis and shared-field escape analysis",
     "Call graph from pthread_create() entry points; every referenced mutable global and every queue field is classified by all its accesses.")
prop("C09", "The background I/O queue never loses a wake-up or an item's contents",
     "An item placed in the queue between the main thread and the background I/O threads is completely visible to the thread that takes it out. A thread that waits for room or for an item "
     "first announces that it waits, and whoever then changes that slot wakes every waiter, so no thread sleeps forever while the slot it waits for has changed.",
     ["schedules"],
     "Every interleaving of the threads and every memory order the C11 model allows.",
     "A lost wake-up or a missing barrier shows only in a window of a few instructions, or on hardware weaker than the test machine's.",
     ["src/ioq.c", "src/thread.c", "src/atomic.h"],
     [("slot compare-exchange loops, IOQ_BLOCKED", "src/ioq.c ioq_slot_push/ioq_slot_pop/ioq_slot_wait"), ("mutex then broadcast", "src/ioq.c ioq_slot_wake")],
     "path-sensitive protocol (typestate) analysis of all atomic operations on slots",
     "Every store/CAS of a slot: publishing is release, taking is acquire, a change whose previous value may carry the waiting mark is followed on all paths by lock, unlock and broadcast of the slot's monitor; "
     "every wait is under that monitor's mutex with the mark observed under it and inside a re-checking path. The counting logic of the queue is not decided.")
prop("C10", "Signal hooks stay registered until removed and are not freed in use",
     "A registered signal hook keeps being called until it is removed, whatever other hooks are added or removed in the meantime, and a removed hook is no longer called. "
     "A hook's memory is freed only after it was unlinked and every handler that might be running it in any thread has finished, and a handler can start using a hook only once it is completely initialised.",
     ["schedules", "histories"],
     "Every history of adding and removing hooks, interleaved with signals in every thread.",
     "The unit test registers a couple of hooks; the sequence that loses hooks and the window for a use after free are not sampled.",
     ["src/sighook.c"],
     [("arc_get()/arc_put()/arc_wait()", "src/sighook.c"), ("rcu_update(), rcu_list_append(), rcu_list_remove()", "src/sighook.c")],
     "path-sensitive typestate of references, locks and list shape",
     "Reader references, writer lock, drain-before-free, publication orders and pre/post-conditions of the list operations. Trusts semaphores and mutexes.")
prop("C12", "The optimizer's assumptions about an expression hold when it is evaluated",
     "An expression that the optimizer treats as free of side effects never runs a command, writes output, changes files or steers or ends the traversal when evaluated (diagnostics aside); one it marks always true or always false "
     "returns that result for every file, whatever errors occur (unless the search is ended). For the operators these marks follow from those of the operands, and are brought up to date when the operands change.",
     ["inputs", "fault_sequences"],
     "Every expression, every file and every error its evaluation can meet.",
     "Tests compare the output of a few dozen expressions at each optimisation level; a wrong assumption shows only for the expression, file and error that expose it.",
     ["src/opt.c", "src/eval.c", "src/expr.c"],
     [("pure/always_true/always_false tables", "src/opt.c annotate_visit"), ("annotation of operators", "src/opt.c annotate_not/and/or/comma")],
     "abstract interpretation of the annotation pass + effect and return-value analysis of evaluators",
     "The annotation pass is abstractly interpreted per evaluator; each 'pure' evaluator's call graph is free of side effects; each 'always' result is checked on every return path; operator marks are checked over arbitrary operand lists. "
     "When the optimizer may delete or reorder marked expressions is not decided.")
prop("C20", "Operators evaluate in order and nothing is evaluated after -quit",
     "And, or, not and comma evaluate their operands from left to right, each at most once, only while the result is still open, and return the result that follows. "
     "Once -quit, -exit or a satisfied -limit was evaluated, no further operand is evaluated and no further file is visited, with every search strategy.",
     ["inputs", "histories"],
     "Every operand list and every combination of outcomes; every traversal strategy and state.",
     "Tests have a handful of -quit expressions; the combinations of operators, strategies and positions are unbounded.",
     ["src/eval.c", "src/bftw.c"],
     [("eval_and/eval_or/eval_not/eval_comma", "src/eval.c"), ("BFTW_STOP", "src/eval.c eval_callback, src/bftw.c")],
     "path-sensitive abstract interpretation over arbitrary operand lists",
     "Each operand's outcome is split (true/false/stop); the traversal is analysed with every callback result. The final -exec ... + batches run after the traversal are not part of this property.")
prop("C14", "Lost output makes bfs report the error and fail",
     "When output of an action cannot be written, whether the write itself fails or it is noticed only when the stream is flushed (before a command is run or at exit), bfs exits with a non-zero status. "
     "Every output function reports the failure of any write it makes to its caller, and a stream's error state is never cleared or discarded before the failure was recorded. "
     "Exempt are errors ignored with -noerror, a status given to -exit, and diagnostics on standard error.",
     ["fault_sequences", "inputs"],
     "Every write that can fail, at every point, for every output file and every combination of actions.",
     "Tests write to /dev/full in a few commands; the file, the position of the failing write and what happens between it and exit are unbounded.",
     ["src/ctx.c", "src/color.c", "src/printf.c", "src/eval.c", "src/dstring.c", "src/main.c"],
     [("ctx_file->error, clearerr()", "src/ctx.c bfs_ctx_flush"), ("bfs_ctx_fclose()", "src/ctx.c bfs_ctx_free"), ("eval_io_error()", "src/eval.c"), ("cvbuff/cvfprintf", "src/color.c")],
     "path-sensitive error-propagation (taint of failure) analysis",
     "Each fallible call is split into success and failure, and on failing paths the result (or the recorded exit status) must be an error; covers all functions that take a stream or output buffer, the actions, closing, bfs_eval() and main(). "
     "Trusts stdio's sticky error indicator.")
prop("C13", "Facts the optimizer learns from a test's outcome are justified by that outcome",
     "When a test turns out true or false, the optimizer rules out only values (of depth, IDs, links, size, inode number), properties and file types that this outcome really excludes. "
     "Facts that hold before an operand and after an operator account for every combination of outcomes leading there; an expression is replaced by -true or -false only if the other outcome is impossible, or nobody uses the result, and it has no side effects. "
     "The situations in which side effects can be reached are all taken into account.",
     ["inputs"],
     "Every expression: all tests with all arguments, in every order and nesting of operators.",
     "A wrong inference shows only for the pair of tests and the file that contradict it; tests run a few dozen expressions at each optimisation level.",
     ["src/opt.c"],
     [("data_flow_*() transfer functions", "src/opt.c"), ("df_join(), df_is_bottom(), df_init_*()", "src/opt.c"), ("visit_not/and/or/comma", "src/opt.c"), ("data_flow_enter/visit/leave", "src/opt.c")],
     "abstract interpretation of the data flow pass, with a classification of every narrowing of a fact",
     "Each evaluator's transfer function is run over symbolic facts and every store that narrows a fact is classified (which values it removes relative to the compared one); fact-set functions are proved as lemmas; operators over arbitrary operand lists. "
     "The relation between an evaluator and the value it tests is given by a table in the rule. Not decided: what bfs_optimize() does with the final facts, and deletions of the simplification pass.")
prop("C18", "Every I/O queue request is performed as asked and answered exactly once",
     "A worker of the I/O queue performs each request it takes with the request's own arguments, stores its result or negative error code, and answers it exactly once; after cancellation it may answer EINTR instead, except that close requests are always carried out and an opened descriptor is never leaked. "
     "A worker never waits for new requests while it holds unsent answers, passes the stop request on to the others, and ends only with all answers sent. "
     "Submitting a request either queues it completely described and counted or leaves nothing behind, cancelling sends exactly one stop request, and whoever takes an answer frees it exactly once.",
     ["schedules", "fault_sequences", "histories"],
     "Every kind of request, every outcome of the system calls behind it, cancellation at any point, with and without io_uring.",
     "Which requests are in flight when one fails or the search is cancelled depends on timing; tests run a few searches to completion.",
     ["src/ioq.c", "src/bftw.c"],
     [("ioq_check_cancel(), ioq_dispatch_sync()", "src/ioq.c"), ("ioq_prep_sqe(), ioq_reap_cqe(), ioq_ring_drain()", "src/ioq.c"), ("ioq_request(), ioq_free(), ioq_cancel()", "src/ioq.c"), ("bftw_ioq_pop()", "src/bftw.c")],
     "path-sensitive typestate analysis of each request, one abstract request per operation",
     "Requests are symbolic objects whose fields must flow into the performing call; outcomes are split. Trusts liburing's helpers; the slot protocol of the queue itself is C09's subject, and the ring's completion counting arithmetic is not decided.")
prop("C11", "Files are changed only by -delete and by opening output files",
     "Apart from the commands it runs, bfs never removes, creates, renames or modifies a file, except that it creates or truncates the output files named on the command line; only evaluating -delete (or -rm) removes anything. "
     "-delete removes at most the visited file itself, through the descriptor and name the search supplies, as a directory exactly if the file itself (not what a link points to) is a directory, and never '.'; it is true exactly if the file was removed (or is '.'), and a failure is reported. "
     "Accepting -delete always makes the search depth-first.",
     ["inputs", "fault_sequences"],
     "Every command line, file and file type, and every error from looking at or removing the file.",
     "A removal that goes wrong for an unusual type, error or name is irreversible; tests delete a few ordinary files.",
     ["src/eval.c", "src/parse.c", "src/bar.c", "src/xspawn.c"],
     [("eval_delete()", "src/eval.c"), ("parse_delete()", "src/parse.c"), ("open()/xfopen() calls", "src/")],
     "census of file-changing calls + path-sensitive analysis of the removal",
     "Every call, system call number and io_uring operation that can change files is enumerated; the flags of every open are traced through callers. The descriptor/name pair itself is C16's subject; commands run by -exec are not bfs.")
prop("C21", "Every command is waited for, and its failure becomes the action's result",
     "Every process bfs starts is waited for exactly once, until it has ended, by whoever started it, however often signals interrupt the wait; if a process or command cannot be started, the error is passed on. "
     "-exec ... ; and its relatives are true exactly if the command exited with status 0, and errors are reported. "
     "The failure of a batch of -exec ... + or -execdir ... + is remembered and makes bfs fail, whatever happens later.",
     ["fault_sequences", "histories"],
     "Every way a command can end (status, signal), every error of starting or waiting, every sequence of batches.",
     "The order of failing and succeeding batches, signals during the wait and failing fork() cannot be sampled; tests run a few commands that work.",
     ["src/xspawn.c", "src/exec.c", "src/eval.c", "src/bfstd.c", "src/parse.c"],
     [("bfs_fork_spawn()/bfs_posix_spawn()", "src/xspawn.c"), ("bfs_exec_spawn(), bfs_exec_flush()", "src/exec.c"), ("eval_exec(), eval_exec_finish()", "src/eval.c"), ("xwaitpid()", "src/bfstd.c")],
     "path-sensitive typestate analysis of processes + failure propagation",
     "Processes are tokens that must be waited for or returned; the obligation follows the callers. How a command ended is split into success, status, signal and error. A failing wait is reported but the child may stay unreaped; processes that end when bfs itself is killed are not considered.")
prop("C15", "Running out of memory or a failed lookup never makes bfs use a null pointer",
     "Whenever an allocation, opening a stream or directory, or a lookup of the C library fails, at whatever call and time, no code goes on to read, write or call through the null pointer that stands for the failure. "
     "This holds through every function that passes such a failure on, and a null pointer is not left in a data structure whose users rely on it being set.",
     ["fault_sequences"],
     "Every fallible call in the program, failing at any time.",
     "There are several hundred fallible calls; making each of them fail in every context is out of reach of tests, none of which injects failures.",
     ["src/"],
     [("alloc()/zalloc()/xrealloc() and their callers", "src/alloc.c"), ("every function that returns null on failure", "src/")],
     "interprocedural null-value analysis with inferred nullable functions",
     "Functions that can return null after a failing call are inferred bottom-up; each call site is split; callees are analysed with the null argument. Null values that travel through data structures are followed only for fields that some user dereferences without a check.")
prop("C03", "Errors met during the search are reported and make bfs fail",
     "When looking at a file, opening or reading a directory, or anything else a test relies on fails, bfs reports it and exits with a non-zero status, and the test is false; exceptions are only -noerror (counted instead), a file below a root that vanished under -ignore_readdir_race, and broken links, for which the link itself is used. "
     "The search never drops an error of its own: each is recorded for the file, the directory or the whole search, reaches the visit callback or makes the search fail, and once set neither it nor the exit status is reset. "
     "A file that could not be examined is never given to the expression.",
     ["inputs", "fault_sequences"],
     "Every system or library call the search and the tests depend on, failing with any error at any file.",
     "Which call fails for which file with which error cannot be sampled; tests have a few unreadable directories and broken links.",
     ["src/eval.c", "src/bftw.c", "src/dir.c", "src/stat.c", "src/main.c"],
     [("eval_report_error(), eval_should_ignore(), eval_error()", "src/eval.c"), ("direrror, error, BFTW.error", "src/bftw.c"), ("bfs_stat_tryfollow(), bftw_stat()", "src/stat.c, src/bftw.c"), ("bfs_polldir(), bfs_readdir()", "src/dir.c"), ("bfs_eval(), main()", "src/eval.c, src/main.c")],
     "path-sensitive failure propagation, with failing functions inferred bottom-up",
     "Each fallible call is split into success and failure; on failing paths the failure must be reported, recorded or returned, and the latter makes the caller's call fallible in turn, up to main(). Asynchronous failures are retried or cached by bftw.c and not followed through the I/O queue (C18). "
     "Output errors are C14's subject, commands C21's.")
prop("C19", "Depth limits, pruning, mounts and -depth decide what is evaluated and descended",
     "The expression is evaluated for a file exactly if its depth is within -mindepth and -maxdepth, -exclude and -unique do not leave it out, and the visit is the one the order calls for: under -depth the second visit of a directory and the only visit of any other file, otherwise the first. "
     "A directory is descended exactly if its first visit did not prune it, it lies above -maxdepth, and it is not a mount point under -xdev (still evaluated, once) or -mount (not evaluated at all); once the search is told to stop, no file is visited any more. "
     "The passes of -S ids and -S eds cover each depth once without gaps, never enter what an earlier pass pruned, and go on until nothing is left below.",
     ["inputs", "histories"],
     "Every relation of depth to limits, file type, visit, order, mount flags and answer of the expression; any number of deepening passes.",
     "The conditions multiply to hundreds of combinations per strategy, and the tests sample a few of them for the default strategy, none with mount points and -depth.",
     ["src/eval.c", "src/bftw.c"],
     [("eval_callback()", "src/eval.c"), ("bftw_call_back(), bftw_visit(), bftw_impl(), bftw_gc()", "src/bftw.c"), ("bftw_ids_callback(), bftw_ids(), bftw_eds()", "src/bftw.c")],
     "abstract interpretation over a partition of all cases",
     "Depths are split by their relation to the limits; every other input by its distinguishable values. The passes are unrolled four times and judged by their windows. Which files the traversal's queues hold is not decided, nor is the exact order of visits. "
     "If the functions that carry out the steps of the search are renamed or merged, their step rules are skipped (the evidence says how many).")
prop("C16", "What bfs knows about a file is about that file, link or target as asked",
     "A lookup of a file returns the information or type of the link or of its target exactly as -P, -H, -L and the test ask (-xtype and %Y about the other side; a broken link is its own target), with the error met if there is one. "
     "Remembered, asynchronous and listed information is used only for the file and the side of the link it is about, names and paths only relative to the directory they belong to (however far back the open ancestor is), and the fields bfs works with are the ones the system gave, or marked as unknown. "
     "Under -L a directory is reported as a loop exactly if it is one of its own ancestors.",
     ["inputs", "fault_sequences", "histories"],
     "Every kind of file and link target, every error, every state of the caches, every combination of open and closed ancestors, with and without statx().",
     "Kinds of links, flags, cache states, request order and open ancestors multiply to thousands of combinations; the tests sample a few dozen on one kernel.",
     ["src/bftw.c", "src/stat.c", "src/dir.c", "src/eval.c", "src/printf.c", "src/parse.c"],
     [("bftw_stat(), bftw_cached_stat(), bftw_type(), bftw_stat_cache()", "src/bftw.c"), ("bftw_init_ftwbuf(), bftw_file_open(), bftw_ioq_stat()", "src/bftw.c"), ("bfs_stat(), bfs_stat_convert(), bfs_statx_convert()", "src/stat.c"), ("stat_arg(), parse_follow()", "src/parse.c")],
     "abstract interpretation over a model of all kinds of files and links",
     "A model of one file (what following and not following it finds) answers the lookups; entries are analysed for every kind, flag and cache state, and results, caches and descriptors are compared with the model. Directory chains have three levels. "
     "Not covered: colors. That a cached descriptor is not closed while in use is C02's subject.")
prop("C17", "Every file found is visited once, under its own path, in the promised order",
     "Every entry that the system gives for a directory, except . and .., is visited or queued exactly once, whatever the system hands out at a time and whatever requests are made, refused, failed and answered in whatever order; nothing that waits is lost, visited twice or left behind when the search ends. "
     "The path of a file is its argument followed by the names on the way to it, with its depth and directory, whatever was visited before. "
     "With -s the files of each directory come in the order of their names, however many threads there are, and -S dfs with one thread (or -s) visits each directory's files right after it.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "Every strategy, number of threads and -s; every shape of the queues and lists (up to 3 or 4 files each), every order of completions, every previously visited file.",
     "Which requests are in flight and in which order they are answered cannot be sampled; lists of up to four files already have thousands of shapes, and the tests mostly sort the output.",
     ["src/bftw.c", "src/dir.c", "src/list.h"],
     [("bftw_queue_*(), bftw_pop(), bftw_ioq_pop(), bftw_stat_files(), bftw_ioq_opendirs(), bftw_flush()", "src/bftw.c"), ("bftw_build_path(), bftw_file_new(), bftw_child_nameoff()", "src/bftw.c"), ("bftw_list_sort(), SLIST_*", "src/bftw.c, src/list.h"), ("bfs_readdir(), bfs_polldir(), bfs_skipdent()", "src/dir.c"), ("bftw_visit(), bftw_impl(), bftw_state_init()", "src/bftw.c")],
     "shape analysis: abstract interpretation over a model heap of every queue shape",
     "Each function of the traversal is analysed from every shape of its queues, lists and requests in flight, and the shape, order and counts at its end are compared with the specification; the recursive sort is decided by induction. Lists are bounded by four files. "
     "Which thread does what when is C18's subject; closing and freeing are C02's. If the functions that carry out the steps are renamed or merged, their rules are skipped (the evidence says how many).")
prop("C02", "Open directories and memory are released once, never while in use",
     "Every descriptor, directory stream, file record and stat buffer that the search opens or allocates is released exactly once, and never while something still uses it: a read in progress, a request in flight, a file below it, or the path of the file visited last. "
     "No closed descriptor or freed record is used again. "
     "The count of directories that may still be opened stays right, whatever fails (opening, closing, duplicating, allocating, queueing), so the search never exceeds its limit of open files nor gives up while there is room.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "Every combination of open, closed, pinned and shared directories in a chain of files, every request in flight, every failing step.",
     "Leaks and miscounts show only after hundreds of failures or under a low limit of open files; which requests are in flight when a directory is closed cannot be sampled.",
     ["src/bftw.c", "src/dir.c", "src/list.h"],
     [("bftw_cache_pin(), bftw_cache_unpin(), bftw_cache_pop(), bftw_cache_reserve()", "src/bftw.c"), ("bftw_file_open(), bftw_file_opendir(), bftw_opendir(), bftw_ensure_open()", "src/bftw.c"), ("bftw_ioq_pop(), bftw_ioq_opendir(), bftw_ioq_stat()", "src/bftw.c"), ("bftw_close(), bftw_unwrapdir(), bftw_gc(), bftw_state_destroy()", "src/bftw.c")],
     "typestate and ownership analysis over a model heap",
     "Each function that opens, closes, pins, requests or frees is analysed from model states of up to a few files, and who owns what, and the counts, are compared at its end. Bounded chains of files; the I/O threads' side of a request is C18's subject. "
     "If the functions that carry out the steps are renamed or merged, their rules are skipped (the evidence says how many).")
