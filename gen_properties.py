#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

V="crates/vfs/src/vfs.rs";T="crates/vfs/src/tree.rs";W="crates/vfs/src/workspaces.rs";L="crates/vfs/src/local_fs.rs";U="crates/utils/src/lib.rs"

p("C01","Open editor buffers always win over the disk",
 "While a document is open in the editor, every lookup, import and content query for its path sees the latest text the editor sent, whatever happens to that path or its directories on disk (writes, deletes, renames, re-creation) and however late, duplicated or batched the file-system notifications arrive. A document that was opened exists for importers even when it never existed on disk.",
 ["histories","schedules"],"every interleaving of editor open/change/close messages, disk changes by other programs, and delivery of file-system notifications",
 "A test fixes one order of editor messages, disk writes and notifications; the guarantee is about all orders, including disk changes in the middle of one operation.",
 [V,T,W],[("in-memory override of file-system events",V+": store_in_memory_file / invalidate_path"),("re-attachment of open documents when their directory is replaced",V+": ensure_unloaded_in_memory_paths"),("placement of documents in the tree",W+": ensure_dirs_and_file")],
 "open documents table, directory tree, loaded file states","search by path, import resolution, loaded text")
p("C02","Closing a document reverts to the disk state",
 "After a document is closed and pending notifications are processed, its path shows exactly what the disk holds: the disk text if the file exists there, nothing if it does not. Files that depended on the closed document are recomputed whenever the closed text differed from the disk.",
 ["histories","schedules"],"every history of open, change, save, external write or delete, and close, with disk changes racing with the close itself",
 "The outcome depends on what the disk holds at the instant of the close and on which notifications were already consumed; a test samples a few.",
 [V,T,W],[("close and reload from disk",V+": close_in_memory_file / update_file"),("removal of documents that exist only in memory",W+": unload_file; "+T+": Entries::unload_file")],
 "open documents table, directory tree","search by path, loaded text, dependents after close")
p("C03","The project view converges to the disk",
 "Once outside changes stop and all file-system notifications have been processed, the set of source files visible in the project and the text of each file equal what is on disk (with open documents taking precedence), for any sequence of creates, writes, deletes, renames and directory moves by other programs, including changes that happen in the middle of a directory scan or file read.",
 ["histories","schedules"],"all sequences of external disk changes, all placements of those changes between the system calls of a scan or read, all delays and batching of notifications",
 "The failure mode is a change that falls between a watch and a read, or between two notifications; a test cannot place it there deterministically, let alone everywhere.",
 [L,V,T],[("watch before read",L+": read_and_watch_file / read_and_watch_dir"),("event to tree replacement",V+": invalidate_path"),("lazy directory loading",T+": Directory::entries")],
 "directory tree, loaded file states, inotify watches","search by path and loaded text at quiescence")
p("C04","Changes reach every dependent file",
 "After any change to a file, package or missing module (edited, created, deleted, opened, closed, moved in or out), a result that some file derived from its imports is never left stale: recomputing on demand gives the same answer as a freshly started instance over the same disk and open documents. This includes dependents of dependents and files whose import previously failed because the target did not exist.",
 ["histories","schedules"],"all import graphs, all histories of edits and notifications, all orders in which dependents were registered",
 "Staleness needs a particular order of registration, change and lookup; tests check single hand-written sequences.",
 [V,T],[("dependent registration",T+": FileEntry::add_invalidation / Entries::add_missing_entry_callback"),("transitive invalidation",V+": invalidate_files / invalidate_file_by_index"),("whole-database invalidation for core stubs",V+": InvalidationResult::InvalidatedDb")],
 "per-entry dependents, missing-entry placeholders","cached import results compared with a cold start")
p("C05","Open documents affected by a change are reported",
 "Whenever a change (editor or disk, direct or through any chain of imports) alters what is derived from an open document, that document is reported for re-checking, so the diagnostics last published for each open document equal those a fresh start would publish once the system is quiet.",
 ["histories","schedules"],"all import graphs over open and closed files and all change histories",
 "The set of documents to re-publish depends on the whole history of registrations and changes.",
 [V],[("re-check reporting",V+": on_invalidated_in_memory_file call sites"),("callback seam",L+": LocalFS::on_invalidated_in_memory_file")],
 "open documents table, per-entry dependents","documents reported through the callback")
p("C06","An internal crash loses no open document",
 "If processing panics at an arbitrary point, recovery keeps every open document with the text the editor last sent (except a document whose own processing raised the panic), reports each of them for re-checking, and the recovered instance afterwards behaves like a fresh one over the current disk and those documents, even if files changed or vanished on disk around the crash.",
 ["crash_points","histories"],"every point at which processing can panic, combined with every state of open documents, pending notifications and disk changes around it",
 "The crash point and the disk changes around it are unbounded; the existing tests trigger one panic in one state.",
 [V],[("state hand-over",V+": into_panic_recovery / load_panic_recovery"),("server restart","crates/zubanls/src/server.rs: recover_from_panic")],
 "recovered file list, open documents","text and identity of files after recovery, re-check reports")
p("C07","Concurrent loading is equivalent to sequential loading",
 "When several threads look up, load and import files of the same project at once, every path gets exactly one identity that all threads agree on, each loaded file holds its own disk text and never changes under a reader, no dependency registration is lost, and no schedule deadlocks or panics.",
 ["schedules","programs"],"all thread interleavings of lookups, lazy directory scans, file loads, import resolutions and sub-file creation",
 "Tests run with whatever interleaving the machine produces; the guarantee is over all of them.",
 [V,T,U],[("single identity per file",T+": FileEntry::with_set_file_index"),("one-time content",V+": FileState::update (OnceLock)"),("lazy directory scan",T+": Directory::entries (OnceLock)")],
 "file table, entry index mutexes, directory locks","indices and texts returned to each thread")
p("C08","The append-only file table is linearizable",
 "Concurrent appends and reads on the append-only table behave like some sequential order of those operations consistent with real time: each append gets its own index, an index once handed out always yields the same element at the same address, and the length never shrinks.",
 ["schedules"],"all interleavings of append, get, length, last-element and index operations from any number of threads",
 "The races are a few instructions wide; tests of this table do not exist and would not hit them.",
 [U],[("locked push and get",U+": InsertOnlyVec")],"the table","returned indices, references and lengths")
p("C09","Concurrent workspace registration loses nothing",
 "When threads register additional source roots while others search files, every registered root is present afterwards exactly once, exactly one of several registrations of the same root reports success, readers only ever see the list grow, and files below every registered root can be found.",
 ["schedules"],"all interleavings of registrations of equal and different roots with concurrent lookups",
 "A lost update needs two registrations inside one narrow window.",
 [W],[("copy-on-write list with write lock",W+": Workspaces::push_without_full_access")],"workspace list","registration results, listed roots, lookups")
p("C10","File-system faults and hostile trees are survivable",
 "Unreadable or vanishing files, I/O errors, interrupted calls, undecodable names or contents, symbolic-link cycles, special files and refused watches never crash or hang the system and never yield wrong content: a path is either shown with a text it really had or treated as absent, and paths not touched by a fault are unaffected.",
 ["fault_sequences","inputs"],"every system call failing with every plausible error, at every position, on every shape of directory tree",
 "Errors such as EIO, EACCES, EMFILE or ENOSPC for watches at the n-th call cannot be provoked portably in tests.",
 [L,W,T],[("error handling of reads and scans",L+": read_and_watch_file / read_and_watch_dir / read_and_watch_entry"),("symlink following and cycle check",L+": follow_symlink_internal"),("placing documents in the tree",W+": ensure_dirs_and_file")],
 "directory tree, watches","lookups, loaded text, survival")
p("C11","A license is honoured only if signed, unaltered and in its period",
 "A license file is accepted exactly when it carries a valid signature of a trusted key over the very field values it states and the current clock lies within its validity period (both ends included), for any clock setting from 1970 on and any jump; missing, truncated, torn, bit-flipped or otherwise altered files are refused with an error and never crash the program.",
 ["inputs","fault_sequences","configurations"],"all clock values and jumps, all byte-level corruptions and truncations of the file, all read errors, short and interrupted reads",
 "Tests check a handful of fixed instants and no damaged files.",
 ["crates/licensing/src/lib.rs","crates/licensing/src/main.rs"],[("verification","crates/licensing/src/lib.rs: License::verify_with_keys / to_bytes_message"),("file reading","crates/licensing/src/lib.rs: verify_license_in_path")],
 "license file, system clock","accept/refuse result","a guarded extra trusted key, since the private halves of the shipped keys are secret")
p("C12","Log records are complete, ordered and never fatal",
 "Every record at an enabled level reaches the configured log destination exactly once and unbroken, in program order per thread, and records below the level never do; earlier log content is kept; failing, short or interrupted writes to that destination never crash or block the program and lose at most the records whose write failed (records of different threads may interleave where a write to a file was short).",
 ["schedules","fault_sequences","configurations"],"all interleavings of logging threads, all log level settings, all write faults",
 "Needs concurrent writers and failing writes at chosen positions.",
 ["crates/logging_config/src/lib.rs"],[("subscriber set-up","crates/logging_config/src/lib.rs: Config::init"),("log file writer","crates/logging_config/src/lib.rs: maybe_log_file_writer")],
 "log file","bytes in the log file or on standard error")
p("C13","The profiler report accounts for every span",
 "For every set of concurrently running and nested profiled spans, each finished root span is reported once with children grouped by name, the reported call counts add up to the spans executed, durations follow the clock, and the depth, duration and name filters drop exactly what they say. A report that cannot be written loses its lines, never the program.",
 ["schedules","programs","configurations"],"all interleavings and nestings of spans over threads, all clock advances, all filter specifications",
 "Durations and grouping depend on the clock and on interleavings tests do not control.",
 ["crates/logging_config/src/hprof.rs"],[("aggregation","crates/logging_config/src/hprof.rs: Node::aggregate"),("filters","crates/logging_config/src/hprof.rs: WriteFilter")],
 "span tree","report lines on standard error")
p("C14","Panic messages carry exactly the panicking thread's context",
 "When a thread panics, the context printed is exactly the stack of contexts that thread had entered and not yet left, in order, with none from other threads; leaving a context, also by unwinding, removes exactly that one (contexts are nested scopes). When the message cannot be written the panic still unwinds as usual.",
 ["schedules","crash_points"],"all nestings of contexts, all panic points, all interleavings with other threads that enter, leave and panic",
 "Requires several threads panicking at chosen points.",
 ["crates/utils/src/panic_context.rs"],[("thread-local context stack","crates/utils/src/panic_context.rs: enter / Drop / init")],
 "context stacks","panic output")
p("C15","Parsing is independent of scheduling",
 "Parsing a source text gives the same tree whichever thread does it, whatever runs concurrently, whether or not the shared grammar and tables were initialised before, and whatever was parsed before on that thread or by others; the tree keeps its source text exactly (line ends are only added at the very end), and its leaves cover that text in order, with nothing but white space, comments and line joins between them.",
 ["schedules","crash_points"],"all interleavings of concurrent parses including the first-use initialisation of shared tables, and panics in the middle",
 "Tests parse on one thread with initialised tables.",
 ["crates/parsa/src/lib.rs","crates/parsa_python/src/lib.rs","crates/parsa_python_cst/src/lib.rs"],[("lazily initialised grammar and regular expressions","crates/parsa_python/src"),("tree construction","crates/parsa_python_cst/src/lib.rs: Tree::parse")],
 "shared grammar tables","parsed tree and its text")
p("C16","Nested source roots give each path one identity",
 "When one source root lies inside another, whichever is registered first, a path below both is one and the same file that belongs to the innermost root: looking it up directly, walking the outer root or importing through either reaches the same identity and text, and changes through disk or editor are seen by all of them.",
 ["histories","configurations","schedules"],"all nestings and registration orders of roots, all change histories",
 "Combination of root layouts, registration order, lazy loading and later changes.",
 [W,T,L],[("nested workspace links",T+": DirEntries::NestedWorkspace"),("longest root wins",W+": strip_short_path_in_workspace")],
 "workspace list, directory tree","indices and texts by every route")
p("C17","Watching and unwatching never blocks or kills the session",
 "Starting a project, scanning it, processing bursts of notifications and dropping the project always terminate: the notification thread and the main thread never wait for each other forever, every watch request is answered, and dropping the project stops the notification thread.",
 ["schedules"],"all interleavings of the main thread, worker threads and the notification thread, all bursts of events",
 "A wait-for cycle needs one particular schedule.",
 [L],[("watch requests",L+": LocalFS::watch"),("event forwarding",L+": LocalFS::with_watcher")],
 "watcher lock, event channel","termination of every operation")
p("C18","Ignore rules are followed as they are now",
 "The files selected for checking are always exactly those that the current .gitignore rules leave: rules apply from the .gitignore files that are on disk now, or from the editor's text while one is open, to everything below their directory. Creating, changing, moving or deleting a .gitignore or a directory that contains one, editing and closing it in the editor, and recovering from a panic lead to the same selection as a fresh start, and never to a failure.",
 ["histories","crash_points","schedules"],"all histories of ignore files and directories on disk and in the editor, panics at any step",
 "Tests read one ignore file once at start-up.",
 [V,L,T],[("ignore entries",L+": read_and_watch_dir, read_and_watch_entry"),("rules",T+": GitignoreFile"),("open ignore files",V+": store_in_memory_file, close_in_memory_file, load_panic_recovery")],
 "directory tree, open ignore files","set of files selected for checking")
# ---- not decidable by this technique here
p("N01","Parsing never fails and preserves the source",
 "Every text, valid Python or not, is parsed without failure and the tree reproduces it byte for byte.",
 ["inputs"],"all texts","Input space is unbounded.",["crates/parsa_python_cst/src/lib.rs","crates/parsa_python/src"],[("tokenizer and parser","crates/parsa_python/src")])
p("N02","Type checking results agree with the typing rules",
 "For every program the reported diagnostics, inferred types and completions follow the Python typing rules and the compatible checker's documented behaviour.",
 ["programs","configurations"],"all programs","Program space is unbounded.",["crates/zuban_python/src"],[("inference","crates/zuban_python/src")])
p("N03","Every editor request gets exactly one answer",
 "Each request sent to the language server is answered exactly once, with a result or an error, also when handling it panics.",
 ["histories","crash_points"],"all message histories","Needs arbitrary message orders and panics.",["crates/zubanls/src/server.rs"],[("dispatch","crates/zubanls/src/server.rs: on_lsp_message_and_return_on_shutdown")])
p("N04","Configuration files are interpreted as documented",
 "Every combination of configuration files, flags and environment gives the documented settings.",
 ["configurations"],"all configuration texts","Configuration space is unbounded.",["crates/config/src"],[("config parsing","crates/config/src")])
p("N05","Path normalisation is idempotent and meaning-preserving",
 "Normalising a path twice equals normalising once, and the normalised path names the same file when no symbolic links are involved.",
 ["inputs"],"all paths","Input space is unbounded.",["crates/vfs/src/normalized_path.rs"],[("normalisation","crates/vfs/src/normalized_path.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
