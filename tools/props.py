SCHED = "Seeded search: every thread interleaving at instrumented edges, timer and fault is chosen by the simulator from the seed; a pass means no violation in the runs counted in the evidence file, not a proof. "
prop("P01", "Derived-product cache serves only intact, current bytes",
     "A lookup in the on-disk derived-product cache that reports a hit returns exactly the bytes some producer published for that same key, or it reports a miss. Damaged, truncated, foreign or half-written files are never served, and an entry whose invalidation or clearing was acknowledged before the lookup began is never served again.",
     ["schedules", "crash_points", "fault_sequences", "inputs"],
     "For every number of processes and threads sharing a cache directory, every interleaving of their operations, every crash, power loss, I/O error, short or torn write, and every corruption of files on disk.",
     "Tests write one file, flip chosen bytes and read it back in one process with no crash or concurrent clear; the claim is over all crash points, interleavings and damage.",
     ["src/persistent_cache.rs"], [("framed product with header, key echo and checksum", "src/persistent_cache.rs read/publish"), ("publish by temporary file, fsync, rename", "src/persistent_cache.rs publish"), ("clear and invalidate under locks", "src/persistent_cache.rs")],
     ["bytes returned by a lookup"], "sim_comp",
     SCHED + "Disk model: fsynced data is durable, unsynced data may be lost or torn.")
prop("P02", "An acknowledged cache publish survives process crash and power loss",
     "Once publishing a derived product has returned success, a later lookup of the same key by any process, also after crashes and power loss, finds it, unless an invalidation, a clear or eviction removed it.",
     ["schedules", "crash_points", "histories"],
     "For every history of publishes, lookups, crashes and power losses on a shared cache directory with no other disk fault, and every crash point inside it.",
     "Tests cannot crash the process or lose unsynced data at every point of the publish protocol.",
     ["src/persistent_cache.rs"], [("sync file, rename, sync directory before acknowledging", "src/persistent_cache.rs publish")],
     ["lookup result after restart"], "sim_comp", SCHED + "Disk model as in P01.")
prop("P03", "At most one process builds a given derived product at a time",
     "For a given key, at most one live thread or process holds the right to build the product at any moment; others wait for it and then use its result or take over.",
     ["schedules", "crash_points", "fault_sequences"],
     "For every interleaving of lookups by several threads and processes of the same keys, with builders that succeed, give up or crash.",
     "Tests use two threads in one process with sleeps; cross-process locks, crashes of the holder and arbitrary interleavings are out of reach.",
     ["src/persistent_cache.rs"], [("per-key in-process gate and advisory file lock", "src/persistent_cache.rs lookup_*_or_reserve")],
     ["reservations handed out by lookup"], "sim_comp", SCHED)
prop("P04", "The cache never wedges and never fails without cause",
     "Cache operations finish within bounded time however other processes behave or crash, and report an error only if the disk reported one. After faults stop, every key can be looked up, built and published again whatever state earlier crashes, errors and damage left on disk.",
     ["schedules", "crash_points", "fault_sequences"],
     "For every schedule, crash and fault sequence, and every directory state they leave behind.",
     "Tests start from an empty or lightly damaged directory; leftover locks and temporaries from arbitrary crash points and concurrent removals are not sampled.",
     ["src/persistent_cache.rs"], [("lock files released by the kernel on crash", "src/persistent_cache.rs"), ("stale temporary cleanup", "src/persistent_cache.rs"), ("tolerance of concurrently removed files", "src/persistent_cache.rs summary")],
     ["results and completion of cache calls"], "sim_comp", SCHED + "Liveness: all calls return within simulated hours; deadlock is detected exactly.")
prop("P05", "The on-disk cache stays within its configured bounds",
     "After every successful publish by a process using a cache directory alone, the number of stored products and their total size are within the configured limits.",
     ["histories", "schedules", "configurations"],
     "For every sequence of publishes of any sizes by any threads of one process and every limit configuration.",
     "Tests publish a fixed handful of entries under one or two limit settings in one order.",
     ["src/persistent_cache.rs"], [("least-recently-used eviction after publish", "src/persistent_cache.rs")],
     ["files on the simulated disk"], "sim_comp", SCHED)
prop("P06", "Concurrent requests for one product share a single production",
     "For one key at most one producer runs at a time, no producer runs while a retained product exists, and every caller receives a product made for its own key.",
     ["schedules", "histories", "fault_sequences"],
     "For every number of callers and keys, every interleaving, and producers that succeed, fail, panic or whose callers are aborted.",
     "Tests use barriers for a handful of callers of one key on one schedule.",
     ["src/single_flight.rs"], [("in-flight table and shared future or condition variable", "src/single_flight.rs")],
     ["producer invocations and values returned"], "sim_comp", SCHED)
prop("P07", "A failed production is neither remembered nor able to block later callers",
     "When a producer fails, panics or its caller is aborted, the callers waiting for it are answered, a call that begins after that failure was reported does not receive it, and a later call produces the key afresh. No caller waits forever.",
     ["schedules", "fault_sequences", "histories"],
     "For every interleaving of failing, panicking, aborted and succeeding productions and their callers.",
     "Tests fail one producer once, then retry sequentially; races between the failure becoming visible and its removal are not sampled.",
     ["src/single_flight.rs"], [("removal of the in-flight entry on failure or drop", "src/single_flight.rs")],
     ["errors returned to callers, completion of calls"], "sim_comp", SCHED)
prop("P08", "Retained single-flight products stay within entry and weight bounds",
     "The number of products retained for sharing and their total weight never exceed the configured limits once calls have completed.",
     ["schedules", "histories", "configurations"],
     "For every limit, product weight, order of completion and interleaving.",
     "Tests insert a few products in one order.",
     ["src/single_flight.rs"], [("bounded retention with eviction", "src/single_flight.rs")],
     ["retained entry count and weight"], "sim_comp", SCHED)
prop("P09", "A project is never indexed twice at once; the parallelism limit holds",
     "At most the configured number of indexing jobs are active at any time and no two active jobs belong to the same project. When every job has ended, failed or been aborted, nothing remains counted as active or queued.",
     ["schedules", "histories", "fault_sequences"],
     "For every set of jobs, priorities, promotions, cancellations, aborts and every interleaving.",
     "Tests run a few jobs on one schedule with sleeps or notifications.",
     ["src/indexing_scheduler.rs"], [("admission under one lock, permit released on drop", "src/indexing_scheduler.rs")],
     ["admitted jobs, scheduler snapshot"], "sim_comp", SCHED)
prop("P10", "Indexing jobs are admitted by priority, without starvation or lost wakeups",
     "Whenever a slot is free, the waiting job of highest priority (first come first served within a priority) whose project is idle runs, except that waiting background work is not bypassed more than the fixed number of times. A cancelled job is turned away promptly and never runs, and no job waits while it could run.",
     ["schedules", "histories"],
     "For every arrival order, promotion, cancellation and completion history and every interleaving of them.",
     "Tests check one arrival order per rule; lost wakeups need a specific interleaving of cancel, release and enqueue.",
     ["src/indexing_scheduler.rs"], [("priority selection with bounded bypass", "src/indexing_scheduler.rs"), ("wakeup on release and cancel", "src/indexing_scheduler.rs")],
     ["order of admissions against a reference model"], "sim_comp", SCHED)
prop("P11", "Indexing resource budgets are never exceeded and never leak",
     "At every moment the tasks, CPU lanes, transient memory and I/O slots in use by admitted indexing work are within the configured budgets. Once all work has ended, failed, panicked or been cancelled, nothing remains accounted as in use.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "For every budget, set of work requests, panic, cancellation and interleaving.",
     "Tests admit a few requests on one schedule.",
     ["src/indexing_resources.rs"], [("admission under one lock, permit released on drop", "src/indexing_resources.rs")],
     ["resources held by running work, governor snapshot"], "sim_comp", SCHED)
prop("P12", "Resource admission honours priority, cancellation and never idles wrongly",
     "Waiting work that fits the free budget is admitted in priority order with bounded bypass of background work; cancelled work is turned away and never runs; and no work waits while it fits and nothing ahead of it is waiting to run.",
     ["schedules", "histories"],
     "For every arrival, promotion, cancellation and release history and every interleaving of them.",
     "Tests check one order per rule; lost wakeups need a specific interleaving.",
     ["src/indexing_resources.rs"], [("priority selection and notification", "src/indexing_resources.rs")],
     ["order of admissions against a reference model"], "sim_comp", SCHED)
LSP = SCHED + "The whole server process (its real main, tower-lsp, tokio, rayon and file system calls) runs inside the simulation; the editor, disk, clock and child processes are simulated. "
prop("P13", "Answers depend only on the final texts, not on the history that led there",
     "After any sequence of opens, edits, saves, closes and outside file changes has settled, what the server answers about symbols, definitions, constant and variable references, document outline, folding, tokens, class graph and known methods is what a server freshly started on the final texts answers.",
     ["histories", "schedules", "inputs"],
     "For every project, every history of editor operations and outside writes, deletions and creations of its files, every delivery delay, duplication and batching of the file events, and every interleaving with indexing.",
     "Tests apply one edit to one file and look at one answer; stale facts appear only after particular sequences across several files.",
     ["crates/ruby-analysis/src/engine/state.rs", "src/indexer/file_processor.rs", "src/handlers/notification.rs", "src/capabilities/indexing.rs", "src/server.rs"],
     [("replacement of one file's facts", "crates/ruby-analysis/src/engine/state.rs replace_file_facts"), ("cross-file resolution after an edit or save", "crates/ruby-analysis/src/engine/state.rs"), ("per-document ordering of notifications", "src/server.rs")],
     ["answers to every navigation and outline request in the final state, against a fresh server"], "sim_lsp",
     LSP + "Inferred return types, linearised ancestor lists and method references are left out of the comparison: their order dependence is by design (first proven type wins).")
prop("P14", "Answers about an edited document are those of one text, never an older one",
     "While a document is being edited, every outline, semantic token and folding answer is the answer to exactly one of the texts the editor has sent for it, never a mixture; once an answer has shown some text, requests sent later are never answered from an earlier text; and when the server is quiet the answer is that of the last text sent.",
     ["histories", "schedules", "inputs"],
     "For every sequence of opens, edits, bursts, saves, closes and requests about several documents, at every timing, fragmentation and interleaving of their handlers, during and after indexing.",
     "Tests await each notification before asking; handlers overtaking each other, lost last edits and answers from two texts need overlapping messages.",
     ["src/handlers/notification.rs", "src/capabilities/indexing.rs", "src/server.rs", "crates/ruby-analysis/src/indexer/ruby_document.rs"],
     [("per-document ordering of notifications", "src/server.rs document_semantic_lock"), ("atomic replacement of the document", "src/capabilities/indexing.rs"), ("requests answered from the document", "src/handlers/request.rs")],
     ["documentSymbol, semanticTokens and foldingRange answers against those of a fresh server for each text sent"], "sim_lsp", LSP)
prop("P15", "Changes made outside the editor take effect, however many at once",
     "After other programs have created, changed or deleted any number of project files and the file events have been delivered, in any order, batching, duplication and delay, the server answers as if freshly started on the files as they now are, except that an open document counts with the text in the editor.",
     ["histories", "schedules", "inputs"],
     "For every number of files changed at once, every order, delay and grouping of the events, and every interleaving with opens, edits, saves, closes and requests.",
     "Tests send one event for one file to an idle server; lost tails of large batches and races with documents being opened or closed are not sampled.",
     ["src/handlers/notification.rs", "src/capabilities/indexing.rs", "src/server.rs"],
     [("debounced queue of changed files", "src/server.rs queue_watched_file_changes"), ("application of a batch", "src/capabilities/indexing.rs handle_watched_files_changed"), ("order against document notifications", "src/server.rs document_semantic_lock")],
     ["answers to every navigation and outline request in the final state, against a fresh server"], "sim_lsp", LSP)
prop("P16", "Diagnostics shown for open documents are those of the final texts",
     "After any history of edits, saves, closes and outside changes has settled, the diagnostics last published for every open document are those a fresh server publishes for the same texts, nothing stale and nothing missing: syntax errors and unresolved constants without further action, unresolved methods once the open documents are saved. Once indexing has finished, constants that are not defined are reported and defined ones are not.",
     ["histories", "schedules", "inputs"],
     "For every project and history as in P13, documents opened before, during or after indexing, and every interleaving of publications.",
     "Tests publish once for one document; stale or dropped publications need particular orders of overlapping notifications.",
     ["src/capabilities/diagnostics.rs", "src/handlers/notification.rs", "src/indexer/coordinator.rs"],
     [("publication after open, edit and save", "src/handlers/notification.rs"), ("diagnostics from engine facts", "src/capabilities/diagnostics.rs")],
     ["last publishDiagnostics per open document"], "sim_lsp", LSP)
prop("P17", "Every request is answered exactly once and the server survives",
     "Every request gets exactly one well-formed response in bounded time, also when cancelled, sent during indexing or followed by edits; no sequence of well-formed editor messages makes the server panic, stop answering, send a malformed message or die; after shutdown, exit and end of input the process ends with code 0, and it ends when its input ends without them.",
     ["histories", "schedules", "inputs"],
     "For every project, history of notifications, requests and cancellations, message fragmentation, slow or stalled reader, and interleaving.",
     "Tests call handlers one at a time in process; lost responses, deadlocks and panics need overlapping requests, back-pressure and particular edit sequences.",
     ["src/server.rs", "src/handlers/request.rs", "src/handlers/notification.rs", "src/main.rs"],
     [("semantic requests on admission-controlled blocking threads", "src/server.rs"), ("per-document semantic lock", "src/server.rs"), ("transport with bounded concurrency", "src/main.rs")],
     ["responses per request id, process exit status, panics"], "sim_lsp", LSP + "Bounded means ten simulated minutes; deadlock is detected exactly.")
prop("P18", "Indexing status is consistent, moves forward and ends",
     "The indexing status the server announces and answers never goes back: sequence numbers grow, each project's phase only advances within a generation, progress does not shrink or exceed its total, the aggregate counts match the listed projects, no more projects are active than the limit, and once the server is quiet every readable project has been announced as ready.",
     ["schedules", "histories", "fault_sequences"],
     "For every number of project folders, every interleaving of their indexing with opens, requests and each other, slow editor replies, and damaged source files.",
     "Tests record the status of one project on one schedule; lost final announcements, regressions and deadlocks among projects appear only under particular interleavings.",
     ["src/indexing_status.rs", "src/server.rs", "src/indexer/coordinator.rs", "src/indexing_scheduler.rs"],
     [("status store with sequence numbers and coalesced publication", "src/server.rs, src/indexing_status.rs"), ("bounded project scheduler", "src/indexing_scheduler.rs"), ("phase changes while indexing", "src/indexer/coordinator.rs")],
     ["status notifications and status request answers"], "sim_lsp", LSP + "Liveness: within simulated hours; deadlock is detected exactly.")
prop("P19", "Projects of one workspace do not leak into each other",
     "Definitions and references asked in a document of one project folder never lead to a file of another project folder open in the same server, also when folder names are prefixes of each other and both define the same names, during indexing and after it.",
     ["schedules", "inputs", "configurations"],
     "For every set of project folders with overlapping names and overlapping definitions, and every interleaving of their indexing with navigation.",
     "Tests use two folders with distinct names and query after indexing has ended.",
     ["src/server.rs", "src/indexer/coordinator.rs", "src/handlers/request.rs"],
     [("document to workspace routing", "src/server.rs"), ("one engine per project", "src/server.rs")],
     ["locations in definition and reference answers"], "sim_lsp", LSP)
prop("P20", "Damaged or unreadable source files do not harm the rest of the project",
     "When some source files, of the project, an installed gem or the standard library, cannot be opened, read or decoded, are directories or contain garbage, indexing still completes and everything defined in the other files is answered exactly as if the damaged ones were absent.",
     ["fault_sequences", "inputs", "schedules"],
     "For every position and kind of damage, every I/O error on the damaged files at every call, every directory order and interleaving.",
     "Tests index readable files; errors from the file system at chosen calls while many files are read in parallel are not sampled.",
     ["src/indexer/indexer_project.rs", "src/indexer/coordinator.rs", "src/indexer/file_processor.rs", "src/indexer/indexer_gem.rs", "src/indexer/indexer_stdlib.rs"],
     [("per-file error handling during collection", "src/indexer/indexer_project.rs")],
     ["symbols, outline, definitions, references after indexing"], "sim_lsp", LSP)
prop("P21", "What earlier sessions left in the cache never changes an answer",
     "A server started on projects with installed gems answers every navigation, outline, completion, hierarchy and graph request as a server without any cache does, whatever earlier sessions left in the user's cache directory: sessions that ended normally, were killed or lost power at any write, had a failing disk or another content of gems, core stubs or projects, and whatever damage the cache files suffered since. Definitions in gems and the standard library are found at their current places, indexing completes, and once nothing has changed the cache does not stop it.",
     ["crash points", "fault_sequences", "histories", "schedules", "inputs"],
     "For every number of earlier sessions, crash point and manner, disk error sequence, damage of cache files, every sequence of changes of gem contents, versions, dependencies, core stubs and projects between the sessions, and every interleaving.",
     "Tests publish and read one product in a healthy directory; a later session meeting what crashed, failing or differently fed earlier sessions left behind is not sampled.",
     ["src/persistent_cache.rs", "src/dependency_product.rs", "src/indexer/indexer_gem.rs", "src/indexer/indexer_stdlib.rs", "src/indexer/coordinator.rs"],
     [("gem product keys and reuse", "src/dependency_product.rs, src/indexer/indexer_gem.rs"), ("durable publication and rejection", "src/persistent_cache.rs"), ("standard library", "src/indexer/indexer_stdlib.rs")],
     ["answers to every kind of request in the last session, against a cold start; indexing status"], "sim_lsp", LSP)
prop("P22", "A finished index knows every file and nothing else",
     "Once indexing has settled, workspace symbols, document outlines, constant definitions and references are exactly those of the project's texts: every definition of every file is found at its place and nothing is listed that no text contains, whatever the number of files, the order the directory lists them and what was opened or asked meanwhile.",
     ["schedules", "inputs", "histories"],
     "For every generated project from one file to more than two indexing batches, every directory order, worker interleaving, and opens and navigation demands during indexing.",
     "Tests index a few files in one order with nothing else going on; files lost or doubled between demanded and exhaustive batches need particular interleavings and sizes.",
     ["src/indexer/indexer_project.rs", "src/indexer/coordinator.rs", "crates/ruby-analysis/src/engine/state.rs"],
     [("demanded and exhaustive batches of remaining files", "src/indexer/coordinator.rs, src/indexer/indexer_project.rs"), ("merge of per-file facts", "crates/ruby-analysis/src/engine/state.rs")],
     ["symbols, outline, definitions, references after indexing"], "sim_lsp", LSP)
prop("P23", "Navigation during indexing is right or says it must wait, never wrong",
     "A go-to-definition request sent while the project is still being indexed is answered with true definitions, or with an error that says the content is not ready or was modified, never with a wrong place, and never with nothing for a constant the project defines. It does not give up when the project had already been announced as navigable.",
     ["schedules", "histories", "inputs"],
     "For every moment of indexing at which requests arrive, every number of concurrent requests and projects, and every interleaving of demand registration with the batches that satisfy it.",
     "Tests ask at one chosen moment; races between registering a demand and completing a stage are not sampled.",
     ["src/navigation_demand.rs", "src/server.rs", "src/indexer/coordinator.rs", "src/handlers/request.rs"],
     [("demand registration and stage completion", "src/navigation_demand.rs"), ("prioritised files", "src/indexer/indexer_project.rs")],
     ["answers to definition requests sent during indexing"], "sim_lsp", LSP)
prop("P24", "The server goes away with its editor, and only then",
     "When the editor says goodbye and closes the connection, closes it without a word, crashes, or dies while somebody keeps the server's input open and nobody reads its output, the server process ends within bounded time, whatever it is doing and whatever answers of the editor it is still waiting for; after shutdown and exit the exit code is 0. While the editor lives and the connection is open the server does not end by itself, also when it runs as another user than the editor.",
     ["schedules", "fault sequences", "histories"],
     "For every project, history of editor operations, moment and manner of the end, pipe capacity and interleaving with indexing, requests and unanswered server requests.",
     "Tests never run the process; the end of the connection at an arbitrary moment, with requests outstanding in both directions and with broken or stuck pipes, is not exercised at all.",
     ["src/main.rs", "src/server.rs", "src/handlers/notification.rs"],
     [("parent process monitor", "src/server.rs"), ("serving loop over stdio", "src/main.rs"), ("shutdown", "src/handlers/notification.rs handle_shutdown")],
     ["process exit and exit code within simulated time after the end of the editor; no exit before"], "sim_lsp", LSP)

prop("P25", "Misbehaving linters and formatters harm nothing but their own result",
     "Whatever an external linter or formatter does (hangs, crashes, is missing, answers nonsense or slowly, writes much before reading, never reads its input, closes it), every request is answered within the tool's time limit, every other request at once; an edit offered is exactly what the tool made of a text the editor sent, replacing exactly that text; findings shown are those of the last run on the text last opened or saved, none after an edit or a failed run, next to the server's own findings; and no tool process is left running.",
     ["fault sequences", "schedules", "histories", "inputs"],
     "For every document text and size, history of opens, edits, saves, closes, format and fix requests, every behaviour of every tool run, and every interleaving.",
     "Tests run one small script that behaves well or sleeps after reading its input; pipe capacities, partial reads, early output and overlapping runs are not sampled.",
     ["src/linter.rs", "src/capabilities/formatting.rs", "src/capabilities/code_actions.rs", "src/capabilities/indexing.rs"],
     [("tool runs with time limit", "src/linter.rs"), ("formatting and fix edits", "src/capabilities/formatting.rs, src/capabilities/code_actions.rs"), ("retained linter findings", "src/capabilities/indexing.rs append_external_linter_diagnostics")],
     ["answers, edits, diagnostics, response times and remaining child processes, against the simulated tool's actual behaviour"], "sim_lsp", LSP)

prop("P26", "Reconfiguring while running ends like a fresh start",
     "When the project's Ruby version file, the configuration or the set of workspace folders changes at any moment, also repeatedly and while documents are edited, opened, closed or saved, then after everything has settled the server answers and reports as if it had just been started with the final configuration, folders and texts: no edit is rolled back or lost, no closed document comes back, nothing of the previous state remains.",
     ["histories", "schedules", "inputs", "configurations"],
     "For every project, history of edits and outside changes, and every number and timing of version file changes, configuration changes and folder removals and additions, and every interleaving with indexing and edits.",
     "Tests change the configuration of a quiet server and look at one answer; races between the rebuild, edits and other rebuilds are not sampled.",
     ["src/handlers/notification.rs", "src/capabilities/indexing.rs", "src/server.rs", "src/indexer/coordinator.rs"],
     [("rebuild of runtime-owned state", "src/handlers/notification.rs"), ("rehoming of open documents", "src/handlers/notification.rs, src/capabilities/indexing.rs"), ("cancelled and superseded indexing runs", "src/indexing_status.rs, src/indexer/coordinator.rs")],
     ["answers to every navigation and outline request and diagnostics in the final state, against a fresh server"], "sim_lsp", LSP)
