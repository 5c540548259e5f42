LEVEL_STATIC = ("Static analysis over the LLVM IR of the current sources; every instance of each rule is decided, "
                "within the abstractions listed in the evidence's assumptions. ")

prop("C01", "Nothing the current commit needs is removed before a newer one is complete",
  "Whatever point a process stops at, the newest complete commit in the directory still has all its files: an index file is removed only after the operation that made it unnecessary has completely written and closed a newer commit, or by the start-up scan, which spares every file the commit it has just read refers to. "
  "A commit is always written under a generation greater than the one it replaces, and the commit file it removes is older than the one it wrote. "
  "Index code removes files in no other way.",
  ["crash_points", "histories", "fault_sequences"],
  "every path, with every possible error, of every externally callable operation that can remove a file",
  "No test stops a process between two file operations, so an early removal is invisible to the suite as long as the operation eventually completes.",
  ["c/src/index.c", "c/src/ind.c"],
  [("commit routine", "c/src/index.c: sis_write"), ("deferred deletion", "c/src/index.c: deleter_queue_file, deleter_commit_pending_deletions, deleter_find_deletable_files"), ("writers and readers that commit", "c/src/index.c")],
  "interprocedural typestate (queue / commit / remove ordering) and symbolic generation tracking on LLVM IR",
  LEVEL_STATIC + "All paths of all exported operations that reach a removal; crash points are the gaps between calls.")

prop("C02", "A commit refers only to files that are completely written, under fresh names",
  "When a commit is written, every file the operation created for it has been closed first. "
  "A segment is recorded as compound only once its compound file has been written and closed. "
  "Rewriting the deletions or norms of a committed segment never overwrites the file the current commit refers to: it goes to the name of a generation advanced for that rewrite, and only the superseded name is queued for removal.",
  ["crash_points", "fault_sequences", "histories"],
  "every path, with every possible error, of every operation that writes a commit or rewrites deletions or norms",
  "Buffered data reaches the file at close, so the suite sees the same final files whatever the order; only a crash or a concurrent reader in between would notice.",
  ["c/src/index.c", "c/src/compound_io.c", "c/src/ind.c"],
  [("commit points", "c/src/index.c: callers of sis_write"), ("compound marking", "c/src/index.c: iw_commit_compound_file"), ("deletions and norms rewrite", "c/src/index.c: sr_commit_i, norm_rewrite")],
  "interprocedural typestate on output streams, compound marks and generation numbers over LLVM IR",
  LEVEL_STATIC + "All paths of all exported operations that reach a commit, and all reader commit routines.")

prop("C03", "At most one writer: changes need the write lock, only its owner releases it",
  "Nothing is committed, deleted or rewritten in an index except while the writer or reader doing so holds the index's write lock (creating a new index, which wipes the directory by contract, aside), and an object that failed to get a lock never acts as if it had it. "
  "A lock is released only by the handle that obtained it, on success and on every error, so no failed open or change leaves the index locked without an owner or unlocks somebody else's writer.",
  ["schedules", "fault_sequences", "histories"],
  "every path, with and without an error at each call, through every operation that obtains, uses or releases an index lock",
  "Exclusion between two writers and lock leftovers after an error need two openers or an I/O failure at a particular point.",
  ["c/src/index.c", "c/src/store.c", "c/src/fs_store.c", "c/src/ram_store.c", "c/include/store.h"],
  [("writer open/close", "c/src/index.c: iw_open, iw_close"), ("reader write lock", "c/src/index.c: ir_acquire_write_lock, ir_commit, ir_close"), ("lock implementations", "c/src/fs_store.c, c/src/ram_store.c"), ("scoped locks", "c/src/store.c: with_lock")],
  "typestate on lock handles and ownership flags over LLVM IR, following exceptional edges",
  LEVEL_STATIC + "One genuine defect is recorded as a known finding (closing the last handle of a directory store clears all its lock files).")

prop("C04", "Every mutex taken by a call is released when the call returns or raises",
  "Whenever a library function returns or raises an error, every mutex it locked has been unlocked again (or destroyed together with its object), "
  "on every path including early returns and paths that caught an error; and it never unlocks a mutex that it did not lock. "
  "So no history of calls, failed ones included, in any number of threads, leaves an index, reader, writer, store or query parser blocked for the next caller.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every normal and exceptional path through every externally callable function that performs a lock operation, directly or through helpers",
  "The suite is single-threaded for these objects and takes a handful of paths; an early return or an error that keeps a mutex only shows when another call comes later on exactly that path.",
  ["c/src/ind.c", "c/src/index.c", "c/src/store.c", "c/src/fs_store.c", "c/src/compound_io.c", "c/src/sort.c", "c/src/q_parser.y", "c/src/q_parser.c", "c/include/threading.h"],
  [("mutex macros", "c/include/threading.h"), ("index API locking", "c/src/ind.c"), ("reader/writer/store locking", "c/src/index.c"), ("parser locking", "c/src/q_parser.c: qp_parse")],
  "path-sensitive interprocedural lockset typestate on LLVM IR, with exceptional edges",
  LEVEL_STATIC + "All paths of all functions with lock operations; mutex identity is by access path; destructors are assumed not to raise.")

prop("C05", "Error frames are balanced and handlers see current values",
  "Every protected section installs its error frame and removes exactly that frame on every path on which its function returns, so an error raised later is delivered to the innermost section that is still active and never into a function that has already returned. "
  "A variable assigned inside a protected section and used after an error was caught there has its current value, not the one it had on entry.",
  ["inputs", "fault_sequences", "histories"],
  "every path, with and without an error at every call that can raise, through every function with a protected section (library and Ruby extension)",
  "Tests raise a few errors at a few points; a frame left behind or a stale variable only matters when a further error is raised later or when the compiler keeps the variable in a register.",
  ["c/include/except.h", "c/src/except.c", "c/src/index.c", "c/src/store.c", "c/src/compound_io.c", "c/src/fs_store.c", "c/src/field_index.c", "c/src/ind.c", "c/src/q_parser.c", "c/src/q_prefix.c", "c/src/q_span.c", "ruby/ext/r_qparser.c"],
  [("TRY/XCATCHALL/XFINALLY/XENDTRY/RETURN_EARLY", "c/include/except.h"), ("xpush_context/xpop_context/xraise", "c/src/except.c")],
  "path exploration of the setjmp/longjmp exception protocol on LLVM IR, with volatile-ness dataflow on unpromoted IR",
  LEVEL_STATIC + "Exceptional edges from every call that may raise are followed.")

prop("C06", "A failed I/O operation on an index file is never taken for success",
  "When the operating system reports that opening, reading, writing, seeking, renaming, measuring or creating an index file, listing the index directory, or closing a file being written has failed or transferred fewer bytes than asked, the operation that needed it raises an error (or, for yes/no probes, answers no) and does not carry on as if it had succeeded. "
  "Reading past the end of a file in any kind of store is reported in the same way. "
  "An error raised while index data is being written is never caught and dropped; only the advisory copy of the generation number may fail silently.",
  ["fault_sequences", "inputs", "histories"],
  "every failure of every system call on an index file, and every handler an error from a write can reach",
  "The suite never injects an I/O failure into the file system store, so none of the failing branches is executed.",
  ["c/src/fs_store.c", "c/src/ram_store.c", "c/src/compound_io.c", "c/src/store.c", "c/src/index.c"],
  [("file system store and streams", "c/src/fs_store.c"), ("end-of-file checks", "c/src/ram_store.c, c/src/compound_io.c, c/src/store.c"), ("handlers around writes", "c/src/index.c")],
  "failure-path exploration from every system call site, and swallowed-exception analysis, on LLVM IR",
  LEVEL_STATIC + "Each call site's failure value is propagated along all paths to the function's exits and on to callers of helpers.")

prop("C18", "No call waits for a mutex its own thread holds; lock order is consistent",
  "While a thread holds one of the library's (non-recursive) mutexes, nothing it calls through the library's own functions locks the same mutex again. "
  "Any two mutexes belonging to one index, writer, reader or store are always taken in the same order, so calls on the same objects from several threads cannot deadlock.",
  ["schedules", "histories"],
  "every call site reached with a mutex held, and every pair of mutexes nested anywhere",
  "A self-deadlock on a rare path or an inverted order needs that path or a particular interleaving; the threading suite is not part of the stable tests.",
  ["c/src/ind.c", "c/src/index.c", "c/src/store.c", "c/src/fs_store.c", "c/src/sort.c"],
  [("Index -> writer/reader -> store nesting", "c/src/ind.c, c/src/index.c"), ("store registry", "c/src/fs_store.c: open_fs_store")],
  "lockset analysis with transitive acquisition summaries and a lock-order graph on LLVM IR",
  LEVEL_STATIC + "Direct calls are followed transitively; calls through vtable slots are assumed to lock other objects' mutexes.")

prop("C08", "A change that fails half way does not spoil what is committed next",
  "When creating a file fails in the middle of an operation and the writer or reader goes on being used, the next commit refers only to segments all of whose files were created and to deletions that were written, and nothing that commit still refers to is queued for removal. "
  "Nothing is lost: segments are dropped from the list only when the one replacing them is complete, buffered documents are discarded only when their segment is complete, and the marks for deletions and norms still to be written are cleared only after writing them.",
  ["fault_sequences", "histories"],
  "every path of every writer and reader operation, with every file creation failing",
  "Tests never make a file operation fail, let alone continue with the same writer afterwards.",
  ["c/src/index.c"],
  [("flush", "c/src/index.c: iw_flush_ram_segment, dw_flush"), ("merge and adding indexes", "c/src/index.c: iw_merge_segments, iw_add_segment"),
   ("deletions and norms", "c/src/index.c: sr_commit_i, norm_rewrite"), ("compound files", "c/src/index.c: iw_create_compound_file")],
  "interprocedural typestate on exceptional paths with provenance of file names (segment, generation) on LLVM IR",
  LEVEL_STATIC + "The state at every exceptional exit of every operation is judged; failures of closing a file that was written are not modelled.")

prop("C09", "No text, however long, is written past the end of the buffer it is put in",
  "However long a word, term, pattern, query, stored value, mapping or file name is, what the library copies or builds from it stays inside the buffer it is put in: it is cut to the longest term or rejected, and the terminator fits as well. "
  "The length recorded for a token or a term is never more than the buffers that hold terms, including those it is later read back into, can take. "
  "Numbers are encoded only where the stream's buffer has room for the longest encoding, and a compressor is never told of more room than there is.",
  ["inputs"],
  "every write into a character array of fixed size or into a block of computed size, for every length of the text; every place that records a term's length",
  "Tests use short words; a word of exactly 255 bytes, or a value that compresses to just over one buffer, is not among them, and an overflow by one byte often shows nothing.",
  ["c/src", "ruby/ext"],
  [("tokenizers and filters", "c/src/analysis.c, c/src/scanner*.c, c/src/multimapper.c"), ("terms", "c/src/index.c: postings, term dictionaries, term vectors, untokenized fields"), ("query words", "c/src/q_parser.c, c/src/q_wildcard.c"), ("streams", "c/src/store.c"), ("file names", "c/src/index.c, c/src/fs_store.c, c/src/ram_store.c"), ("compressed values", "c/src/index.c")],
  "interval abstract interpretation (values, pointer offsets, string lengths) with context-sensitive calls and relational loop facts, on LLVM IR",
  LEVEL_STATIC + "Lengths read from an index are taken to be those that were written. Blocks of computed size are judged where size and extent are the same quantity up to a constant.")

prop("C10", "Every object has every operation that can be invoked on it",
  "Whatever kind of store, stream, reader, enumerator, analyzer, query, weight, scorer, filter, searcher or cache object a call receives, the operation invoked on it has been set by that object's constructor on every path, to a function taking the arguments passed. "
  "No object that callers of the library can obtain leaves an operation of its interface unset.",
  ["inputs", "histories"],
  "every indirect call of the library and the Ruby extension, and every kind of object that can reach it",
  "A test meets an unset operation only if it combines that kind of object with that operation; most combinations (nested searchers, comparing rarely used queries) are never exercised.",
  ["c/src", "ruby/ext"],
  [("constructors", "c/src: *_new, *_create, open_*"), ("virtual calls", "c/src and ruby/ext: obj->op(obj, ...)")],
  "must-initialise analysis of constructors combined with a field-based points-to analysis of receivers on LLVM IR",
  LEVEL_STATIC + "Receivers are over-approximated; an operation explicitly set to NULL counts as deliberately absent.")

prop("C11", "Deleted documents are never reported, fetched or merged; deletions survive",
  "Once a document is deleted, no posting enumerator, match-all or constant-score search or document fetch of that segment reports it, merging segments drops its stored fields, postings and norms, and copying a segment into another index keeps it deleted. "
  "Every deletion sets the document's bit and is written by the reader's next commit, also when everything had been undeleted before, and opening a segment that has deletions, for reading or merging, always loads them.",
  ["histories", "inputs"],
  "every path through every operation that reports, fetches, merges or copies documents, or records or loads deletions",
  "Tests delete a few documents in a few positions; whether the bit is consulted on every path (skips, bulk reads, cached filters, bulk copies) depends on positions, frequencies and segment layouts they never combine.",
  ["c/src/index.c", "c/src/q_match_all.c", "c/src/q_const_score.c"],
  [("posting enumerators", "c/src/index.c: stde_next, stde_read, stde_skip_to"), ("merging", "c/src/index.c: sm_merge_fields, sm_merge_norms"), ("reader open, delete, fetch", "c/src/index.c: sr_*"), ("scorers over all documents or a filter", "c/src/q_match_all.c, c/src/q_const_score.c")],
  "path-sensitive typestate (current document: unknown / known live) over LLVM IR with helper summaries",
  LEVEL_STATIC + "Scorers that take numbers from postings or from other scorers inherit liveness from their source.")

prop("C12", "Readers and searchers over several parts address the right document and field",
  "A reader or searcher made of several segments, indexes or searchers behaves as one: an operation on document n reaches the part holding n, under its number there (also when parts are empty), and every number a part reports, in posting lists, bulk reads, hits, unscored searches or callbacks, comes back shifted by that part's offset exactly once. "
  "Counts, totals, norms and changes cover every part, each part is asked about its own number of a field and only if it has that field, and what is reported for a part that lacks it is defined. "
  "Skipping forward or resuming at a number passes over no part that may hold it, and seeking a term that no part has leaves nothing to enumerate.",
  ["inputs", "histories"],
  "every operation of the composite readers, searchers and enumerators that calls an operation of a part",
  "Whether an offset, an index or a field mapping is right shows only with particular numbers of parts, empty parts, differing field sets, batch sizes and positions; the suite uses a few fixed ones.",
  ["c/src/index.c", "c/src/search.c"],
  [("composite reader", "c/src/index.c: mr_*"), ("composite enumerators", "c/src/index.c: mtde_*, mte_*"), ("composite searcher", "c/src/search.c: msea_*")],
  "symbolic index-consistency analysis (linear forms over access paths, loop-range and bisection-bound rules) on helper-inlined LLVM IR",
  LEVEL_STATIC + "Helpers are inlined before the analysis; memory is assumed unchanged between loads of one access path within an operation.")

prop("C14", "Cached filter bits, norms and sort indexes are not altered by use or stale",
  "Data that a filter, a reader or a sort keeps for reuse (filter bits, norms, sort indexes) is only read by the searches that use it: no search stores to it, moves a position kept inside it, reorders or frees it, so running any searches in any order gives the same results as running each first. "
  "Changing a norm or the deletions through a composite reader drops the counts and norms that reader has cached. "
  "A cache is looked up, filled and cleared under the same key, and cached filter bits are those that filter computed for that reader and go away with either.",
  ["histories", "schedules"],
  "every use of data obtained from a cache, every operation that changes what a cache was computed from, and every fill of a cache",
  "A changed or stale cache only shows in a later call: the suite rarely searches twice with one filter, interleaves cached counts with deletions, or uses composites with differing field numbers.",
  ["c/src/search.c", "c/src/filter.c", "c/src/index.c", "c/src/q_const_score.c", "c/src/q_filtered_query.c", "c/src/field_index.c", "c/src/sort.c", "c/include/bitvector.h"],
  [("filter cache", "c/src/filter.c: filt_get_bv"), ("norms and counts of composite readers", "c/src/index.c: mr_*"), ("sort index cache", "c/src/field_index.c: field_index_get")],
  "forward taint from cache accessors to stores and frees, must-invalidate paths and key agreement, on helper-inlined LLVM IR",
  LEVEL_STATIC + "Values kept in general-purpose containers are not followed.")

prop("C17", "An Index reads the latest changes and never uses a closed part",
  "Whatever sequence of calls came before, every operation of an Index uses its reader, writer or searcher only while that is open; it opens the writer only after closing the reader and the reader only after closing the writer, so what was written through the handle is visible to its next read. "
  "Every read goes through a reader found to be of the latest version (unless that check is switched off), and no enumerator outlives the reader it came from. "
  "With automatic flushing on, an operation that changes the index has committed the change when it returns.",
  ["histories", "schedules", "fault_sequences"],
  "every operation of the facade from every combination of open reader, writer and searcher, on every path with every possible error",
  "The suite drives the facade through a few sequences in one process; staleness needs a second writer committing between two calls, and a closed handle left behind shows only in the call after next.",
  ["c/src/ind.c", "c/include/ind.h"],
  [("opening on demand", "c/src/ind.c: ensure_writer_open, ensure_reader_open, ensure_searcher_open"), ("flushing", "c/src/ind.c: AUTOFLUSH_IR, AUTOFLUSH_IW, index_flush"), ("operations", "c/src/ind.c: index_*")],
  "typestate with object identities over all operations and start states, on helper-inlined LLVM IR",
  LEVEL_STATIC + "All operations from all consistent start states, both settings of automatic flushing, with exceptional edges.")

prop("C16", "File positions and lengths keep all 64 bits",
  "Every position in an index file and every length of one is handled in 64 bits from the moment it is read, measured or computed until it is written, returned or used to seek: it is never narrowed, kept in a 32-bit variable or field, or computed in 32-bit arithmetic first. "
  "So indexes whose files exceed 2 or 4 GB, and segments with hundreds of millions of documents, are read, copied and merged like small ones.",
  ["inputs", "histories"],
  "every value that is a file position or length, along every flow through variables, fields, parameters and results",
  "No test writes a file of more than a few megabytes, so a lost upper half never shows.",
  ["c/src/store.c", "c/src/fs_store.c", "c/src/ram_store.c", "c/src/compound_io.c", "c/src/index.c", "c/include/store.h", "c/include/index.h"],
  [("streams", "c/src/store.c, fs_store.c, ram_store.c, compound_io.c"), ("file pointers in the index", "c/include/index.h: off_t fields; c/src/index.c"), ("stored-field index", "c/src/index.c: fr_get_doc, fr_get_tv")],
  "interprocedural value-width dataflow (forward from position sources, backward from seeks and lengths) on helper-inlined LLVM IR",
  LEVEL_STATIC + "Differences of two positions, quotients and values compared below a 31-bit bound are not treated as positions.")

prop("C07", "Index records are read back by the encodings they were written with",
  "For every kind of record in an index (commit file, field definitions, segment entries, compound directory, deletions, term dictionary, stored fields, document index, term vectors, postings), the sequence of encoded values a writer can produce, including which parts are present under which condition and how often they repeat, is exactly what the reader of that record takes. "
  "A value written from one field of an object is read back into that field. "
  "Each fixed-width and variable-length encoder is matched by its decoder.",
  ["inputs", "histories"],
  "every record the writers can produce: every combination of optional parts, counts (zero included) and field settings",
  "Tests write a few documents with a few settings; a misaligned optional part (an empty field with offsets, a frequency of one, a segment with several norm generations) only shows with just that combination.",
  ["c/src/index.c", "c/src/store.c", "c/src/compound_io.c"],
  [("commit file", "c/src/index.c: sis_write, sis_read, fis_write, fis_read"), ("stored fields and term vectors", "c/src/index.c: fw_*, fr_*"), ("term dictionary and postings", "c/src/index.c: tiw_*, ste_next, stde_*"), ("compound directory", "c/src/compound_io.c: cw_close, open_cmpd_store"), ("encoders", "c/src/store.c")],
  "extraction of writer and reader record languages as finite automata from helper-inlined LLVM IR, and language comparison",
  LEVEL_STATIC + "Encodings, order, presence conditions and field correspondence are decided; the arithmetic of delta coding is not.")

prop("C13", "Equality and hashing of queries, filters and keys agree and miss nothing",
  "Two queries, filters, terms or cache keys that compare equal have the same hash, and equality compares the same part of both objects. "
  "Objects that differ in anything their searches depend on do not compare equal. "
  "Objects of different types are never compared as if they were of one type.",
  ["inputs", "histories"],
  "every type of query, filter, term and cache key, every part of it, and every comparison made",
  "Tests compare a few pairs; an ignored part, a part compared with itself or a confusion of types shows only for pairs that differ in exactly that part.",
  ["c/src", "c/include/search.h"],
  [("queries", "c/src/q_*.c: *_eq, *_hash; c/src/search.c: q_eq, q_hash"), ("filters", "c/src/filter.c: filt_eq, filt_hash"), ("keys of tables", "c/src/similarity.c: term_eq; c/src/field_index.c; c/src/bitvector.c")],
  "access-path dependence analysis of paired hash and equality functions on helper-inlined LLVM IR",
  LEVEL_STATIC + "Dependence is by access path; 0.0 and -0.0 are not told apart.")

prop("C19", "Changes made through one object by several threads take effect one at a time",
  "When several threads use the same index, reader, writer or query parser, each change (adding, deleting, undeleting, setting a norm, flushing, committing, optimizing, closing) and each operation of the high-level index runs alone on its object: it neither sees nor leaves behind another's half-made change. "
  "Lookups that keep cached or positioned state in a shared object (stored documents, norms, document counts, deletion marks, sort data, the in-memory term index) do so one at a time. "
  "A commit is published, and the files of a commit are found and opened, only in exclusion of each other within a process.",
  ["schedules", "programs"],
  "every exported operation and every way in which it reaches state that a lock protects, under every interleaving of threads",
  "The threading suite is not among the tests; a missing lock shows only under rare interleavings.",
  ["c/src/ind.c", "c/src/index.c", "c/src/sort.c", "c/src/q_parser.y", "c/src/fs_store.c"],
  [("high-level index", "c/src/ind.c: every index_* operation"), ("writer", "c/src/index.c: iw_*"), ("reader", "c/src/index.c: ir_*, sr_*, mr_*"), ("caches", "c/src/sort.c and field_index.c; term index in c/src/index.c"), ("table of open stores", "c/src/fs_store.c")],
  "interprocedural lockset analysis: must-held locks at each access to guarded fields, exposure summaries up to exported operations, on LLVM IR",
  LEVEL_STATIC + "Holding the lock of one object of a kind counts for all objects of that kind; reference counts and simultaneous reads through one file handle are not claimed.")

prop("C20", "Sorting and merging use consistent orders; ties go by document number",
  "Whatever values are compared, the comparison used by every sort and priority queue is a consistent ordering of its elements (never both before and after each other, transitive, ties included) and compares like with like. "
  "Hits that rank equal are ordered by document number, and for every kind of sort, reversed or not, a search over several indexes orders hits by the same rule as a search of one. "
  "Terms are written and merged in ascending byte order, and the same term of several segments in the order of the segments.",
  ["inputs", "configurations"],
  "every comparison function handed to a sort or queue, for every way three elements can rank in each part it looks at; every kind of sort, plain and reversed",
  "Tests sort a few lists; an inconsistent comparison, a tie broken the wrong way or a kind of sort merged differently shows only for particular triples of values.",
  ["c/src", "c/include/priorityqueue.h", "c/include/search.h"],
  [("hit queues", "c/src/search.c: hit_lt, hit_less_than; c/src/sort.c: fshq_lt, fdshq_lt"), ("sort kinds", "c/src/sort.c: sf_*_compare, sf_*_get_val"),
   ("merge queues", "c/src/index.c: tew_lt, smi_lt, pl_cmp"), ("other queues", "c/src/q_*.c: *_less_than, *_cmp; c/src/search.c: match_range_cmp, excerpt_lt")],
  "abstract interpretation of comparison functions over rank abstractions of access paths (LLVM IR)",
  LEVEL_STATIC + "Lists of criteria are unrolled to two; NaN and overflow of differences of non-negative ints are excluded; the heap and sort algorithms themselves are not judged.")

prop("C23", "Nothing is used before it exists or after it has been released",
  "Whichever step of an operation fails, its cleanup releases and uses only what had been opened or created by then, each thing once. "
  "On no path is an object used, handed on or released after the operation has released it or given up its reference. "
  "An object that lives on after an operation, including the native part of a Ruby object, keeps no reference to something the operation released.",
  ["fault_sequences", "inputs", "histories"],
  "every path through every function, with every call that can raise taken both ways",
  "Tests hardly make anything fail; a cleanup that closes a file that was never opened, or a handle kept after it was closed, shows only when the right call fails or the object is used again.",
  ["c/src", "ruby/ext"],
  [("opening and committing", "c/src/index.c: iw_open, ir_open_i, sis_read_i, sis_write, fis_read; c/src/compound_io.c: open_cmpd_store"), ("locks", "c/src/index.c: ir_acquire_write_lock"), ("index facade", "c/src/ind.c"), ("Ruby objects", "ruby/ext/r_*.c: *_close")],
  "path-sensitive null/unassigned/released typestate with release summaries (frees on every path, reference given up), exceptional edges, on LLVM IR",
  LEVEL_STATIC + "Aliases are followed through locals and fields, not through containers; pointers that are NULL by a value condition outside protected sections are not judged.")

prop("C25", "Everything an operation opens or creates is released, kept or handed over",
  "On every path by which an operation completes, each enumerator, stream, reader, query, weight, scorer, table or string it opened or created for its own use has been released, exactly as on its ordinary path; what it did not release it returned or stored in an object that will release it. "
  "Closing or destroying an object releases what the object holds, including its counted references, whichever kind of query, scorer, enumerator, store or filter it is. "
  "So files and memory are not used up by a long series of ordinary operations.",
  ["inputs", "histories"],
  "every path to a return through every function that creates or opens something; every field that holds something; every implementation of a closing operation",
  "Tests do not count what stays open; an early return that skips a close shows only after many searches, or when the file table is full.",
  ["c/src", "ruby/ext"],
  [("searching", "c/src/search.c, c/src/q_*.c, c/src/filter.c, c/src/sort.c: enumerators, weights, scorers"), ("index", "c/src/index.c: readers, writers, enumerators, merging"), ("streams and stores", "c/src/*_store.c, c/src/compound_io.c"), ("destructors", "every *_destroy, *_close, *_deref")],
  "path-sensitive ownership dataflow with freshness and keeping summaries; release-completeness of fields and operation slots, on LLVM IR",
  LEVEL_STATIC + "Exits by an error are not judged; contents of containers are followed only for tables of pointers in fields and locals.")

prop('C26', 'A search reports exactly the documents that match the query',
  'For every index and query, the documents a search reports are those whose indexed text matches the query (terms, phrases with slop, spans, ranges, wildcards and their boolean combinations), no more and no less.',
  ['inputs'], 'every index, every query, every document', 'Tests compare a few queries on a few small indexes.', ['c/src/q_*.c'], [('search', 'c/src/q_*.c')], None, None, na='the answer depends on the positions and frequencies found in postings and on heap and counter arithmetic over them at run time; no static argument in reach bounds those. What can be decided from the source about it is claimed in C11, C12, C13, C20.')

prop('C27', 'Scores follow the scoring formula and explanations add up to them',
  'The score of every hit equals the documented formula applied to its term frequencies, norms and boosts, and the explanation of a hit has that value.',
  ['inputs'], 'every index, query and hit', 'Tests compare a handful of scores.', ['c/src/similarity.c'], [('scoring', 'c/src/similarity.c')], None, None, na='floating-point values computed from run-time statistics; a comparison of two computations over all inputs is outside dataflow and type-level methods.')

prop('C28', 'A stored document is read back unchanged',
  'Every value stored with a document is returned byte for byte, in order, whatever its length or content, compressed or not.',
  ['inputs'], 'every value of every length and content', 'Tests store short values.', ['c/src/index.c'], [('stored fields', 'c/src/index.c')], None, None, na='byte-for-byte equality after compression is a statement about run-time data; the encodings (C07), buffers (C09), positions (C16) and I/O errors (C06) on the way are claimed.')

prop('C29', 'Skipping in a posting list is the same as stepping to the place',
  'For every list, position and target, skipping to a document leaves an enumerator or scorer exactly where stepping with next until that document would.',
  ['inputs'], 'every posting list and target', 'Tests use lists shorter than most skip intervals.', ['c/src/index.c'], [('skip lists', 'c/src/index.c')], None, None, na='equivalence of two run-time traversals over skip data; needs induction over list contents, not a static rule.')

prop('C30', 'Concurrent searches and updates look as if made one after another',
  'Every history of concurrent calls on one index returns what some sequential order of the same calls would return.',
  ['schedules'], 'every interleaving of every set of calls', 'Tests run one schedule.', ['c/src/ind.c'], [('concurrent use', 'c/src/ind.c')], None, None, na='linearizability of results quantifies over returned values; the static parts (mutual exclusion, lock order, release of locks) are C04, C18, C19.')

prop('C31', 'A query printed and parsed again is the same query',
  'For every query object that the query language can express, parsing its text form gives an equal query.',
  ['inputs'], 'every query the language can express', 'Tests parse a fixed list of strings.', ['c/src/q_parser.c'], [('query language', 'c/src/q_parser.c')], None, None, na='an inverse relation between an LR parser and printing code over all strings; no static argument in reach.')
