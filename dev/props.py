# The properties: one dict each.  gen.py writes properties.jsonl and MANIFEST.json.
PS = "Path-sensitive typestate analysis over the whole program's LLVM IR (every feasible path under interval facts, all callees entered); no bound on inputs or loop iterations. Trusts the clang front end and the boundary models named in DESIGN.md."
PROPS = [
 dict(id="C01", title="In-place index updates are announced to lock-free readers",
  statement="Every time a writer overwrites part of the on-disk trie that a concurrent reader may be following (an edge or a node), it has first announced the affected edge to readers, the announcement names the edge through which the overwritten bytes are reached, and it is withdrawn only after the bytes are written. Announcements are never nested and no normal return of an update operation leaves one pending.",
  over=["schedules", "inputs", "histories"], q="all interleavings of one writer with any number of readers, for every key, value and trie shape",
  why="A missing or misplaced announcement only shows when a reader runs between two particular instructions of the writer; the tests run few readers for a short time and no test controls the interleaving.",
  files=["src/dict_mem.cpp", "src/dict.cpp", "src/mb_rc.cpp", "src/lock_free.h"],
  mech=[("writer window start/stop around every in-place write", "src/dict_mem.cpp, src/dict.cpp, src/mb_rc.cpp"), ("LockFree::WriterLockFreeStart/Stop", "src/lock_free.h, src/lock_free.cpp")],
  design="""Typestate over the writer's trie stores. A *shared write* is any copy into the mapped index
(WriteData / RandomWrite / a memcpy or store through a mapped pointer) whose target is not provably a
block reserved in the same operation and not yet linked. Rules: `window-open` a shared write happens
only with an announced edge; `window-offset` the announced offset is the one recorded for readers;
`window-target` the target is tied to that edge (offset arithmetic from the edge, the node behind it,
its key string); `window-nested`, `window-exit` no nesting and no normal exit with an edge announced.
Roots: every function that performs such writes and is not only called from another (core-set
closure), so a helper extracted from a writer is analysed in its caller's context. Recovery itself
is analysed once per journal state. Oracle: the announcement protocol of lock_free.h.""",
 technique="interprocedural typestate analysis (LLVM IR)", note=PS),
 dict(id="C02", title="Every in-place index update can be completed after a crash",
  statement="Before a writer overwrites bytes of the trie in place, it has recorded in the database header what is being changed, where, and the bytes needed to finish, and clears that record only afterwards. For every record a crash can leave behind, the recovery routine rewrites exactly the affected location with those bytes, and a writer that opens an existing database runs recovery before anything else can change the trie or the record.",
  over=["crash_points", "histories"], q="a crash between any two instructions of any update operation, then reopening",
  why="The abnormal-exit test forges a handful of header states by hand; no test kills the writer between two stores of a real update, and none reopens the database for writing after such a kill.",
  files=["src/dict_mem.cpp", "src/dict.cpp", "src/mb_rc.cpp", "src/db.cpp"],
  mech=[("exception status, target offsets and payload buffer in the index header", "src/drm_base.h"), ("Dict::ExceptionRecovery", "src/dict.cpp"), ("recovery call on writer open", "src/db.cpp")],
  design="""The same exploration with the journal words in `IndexHeader` as typestate. `journal-armed`: no shared
write with status NONE; `journal-target`: the location written equals the location recovery would
rewrite for the armed status (computed from the recovery routine's own IR per status: base field,
displacement, length); `journal-payload`: the bytes written come from the journal buffer (or the
constant recovery uses); `journal-stable`: target words do not change while armed; `journal-order`:
the status is stored with release ordering; `recovery-*`: every status a writer can leave behind has a
recovery case; `open-order`: on every path of opening for writing, recovery runs before any other
function that can write the index or the journal.""",
 technique="interprocedural typestate analysis; writer/recovery table agreement", note=PS),
 dict(id="C03", title="A lookup concludes only from edges validated after their last use",
  statement="Find and FindLongestPrefix take one lock-free snapshot before they read the root edge of an attempt, and every result they return (a value, found-without-value, or not found) is returned only after the last edge of the path has been validated against that snapshot following the last read of the edge, of its string, of the node behind it or of its data, and after every edge passed on the way down has been validated against the same snapshot. If a validation asks for a retry, nothing read in that attempt is used for the result.",
  over=["schedules", "inputs"], q="every point at which the writer can run during a lookup, every key and trie shape, any number of retries",
  why="The result is wrong only if the writer changes the one edge the reader holds and recycles what it leads to between two instructions of the lookup; single-stepping the unrepaired code showed another key's value returned at 543 of 1803 points of one lookup while all tests pass.",
  files=["src/detail/search_engine.cpp", "src/detail/search_engine.h", "src/detail/lf_guard.h", "src/lock_free.cpp"],
  mech=[("SearchEngine::find and findPrefix", "src/detail/search_engine.cpp"), ("ReaderLFGuard::stop, LockFree::ReaderLockFreeStop, ReaderPathCheck", "src/detail/lf_guard.h, src/lock_free.cpp")],
  design="""Typestate of the current edge and of its parent along every path of `SearchEngine::find` and
`findPrefix` (callees entered; boundary models: GetRootEdge, NextEdge, NextEdgeFast, ReaderLockFreeStart,
ReaderLockFreeStop, ReaderPathCheck, PrefixCache::GetDepth). Reading an edge, a node, a string or data makes
the current edge *pending*; a SUCCESS of ReaderLockFreeStop clears the edge whose offset it was given
(values holding an edge offset are tagged current/previous and the tags follow assignments and loop
variables); a descent with the edge before not validated, a new attempt after an unvalidated conclusion,
and SUCCESS/NOT_EXIST/IN_DICT with something pending are violations, as is a snapshot that does not
precede the root edge read. Not covered: the content of optional prefix cache entries (they are copies
made by the writer), and lower-bound searches, which are not lock-free validated by design.""",
 technique="interprocedural typestate analysis with value tags (LLVM IR)", note=PS),
 dict(id="C04", title="The lock-free version protocol detects every overlapping update",
  statement="The writer publishes a finished update by recording the edge in the history, then advancing the shared counter, then withdrawing the announcement, with release ordering; a reader accepts an edge only if, reading the announcement before the counter with acquire ordering, the edge is not announced and either no update finished since its snapshot, or every update that finished since is still in the history, none of them touched the edge, and the counter re-read afterwards proves no history entry was overwritten meanwhile.",
  over=["schedules"], q="all interleavings and memory orders of one writer and any number of readers, any number of updates between a reader's snapshot and its validation",
  why="The faulty windows are a few instructions wide and x86 hides most memory-order mistakes; tests can neither control the schedule nor run a weaker memory model.",
  files=["src/lock_free.h", "src/lock_free.cpp"],
  mech=[("LockFree::WriterLockFreeStop store order", "src/lock_free.cpp"), ("LockFree::ReaderLockFreeStop validation", "src/lock_free.cpp"), ("memory order constants", "src/lock_free.h")],
  design="""`stop-order`: on every path of WriterLockFreeStop: history slot (counter mod size) gets the announced
offset, then counter+1, then the marker. `memory-order`: every access of the three shared words in
the library, release/acquire or stronger. `reader-order`, `reader-validate`: on every path of
ReaderLockFreeStop that returns SUCCESS: offset read before counter, offset differs from the edge
(or the saved-edge exception applies), and either counter equals snapshot or the scan covered every
slot between snapshot and the counter and the counter was re-read afterwards with distance below the
history size (loop range and distance are checked as intervals, so equivalent loops are accepted).""",
 technique="typestate + memory-order + loop-range analysis (LLVM IR)", note=PS),

 dict(id="C05", title="Startup rebuild never recycles a block a lookup can still be reading",
  statement="Find, FindLongestPrefix, FindLowerBound, InDB and ReadDataByOffset read the index and data files only between the begin and the end of one reader epoch guard, and every exit ends the guard it began. While epoch tracking is active, a guard is either a slot claimed atomically whose epoch was stored sequentially consistently and confirmed equal to the re-read global epoch, or the shared rebuild barrier. The startup rebuild hands a block out for reuse only after its contents were moved away and its retire epoch recorded, the global epoch was advanced past that epoch and, with the barrier held exclusively, no live reader slot announces an epoch up to it. A slot becomes claimable again only after its epoch was withdrawn, and the file lock behind the barrier belongs to a single handle.",
  over=["schedules", "histories"], q="all interleavings of the rebuild with any number of lookups from any process, every number of slots in use, readers that die",
  why="The unit tests set slot contents by hand and call the rebuild from the same thread; a missing announcement, a wrong order or a slot freed too early shows only if a lookup straddles the recycling of the very block it reads.",
  files=["src/db.cpp", "src/mb_rc.cpp", "src/drm_base.h", "src/dict.cpp"],
  mech=[("BeginReaderEpochGuard / EndReaderEpochGuard and their use in the lookups", "src/db.cpp"), ("reader slots, ReaderEpochSlot::Clear", "src/drm_base.h"), ("retire epoch, quiescence scan and block reuse in ResourceCollection", "src/mb_rc.cpp")],
  design="""`guard-held`: every path of the five lookups: file reads (DRMBase::ReadData/GetShmPtr, RollableFile)
only with the guard held, no nesting, ended with its own token on every normal and exceptional exit.
`epoch-publish`: every path of BeginReaderEpochGuard: a non-zero token is returned only after claim (CAS),
store of the epoch and a re-read of the global epoch that compared equal, or after the shared lock;
a zero token only when tracking is inactive or the lock failed. `epoch-order`: these accesses, the epoch
advance and the slot scan are sequentially consistent. `slot-release`, `slot-token`: order in Clear, and
the slot ended is the one claimed. `block-reuse`, `quiesced`, `barrier`: on every path of the rebuild a
block becomes reusable only with evacuation done, retire epoch stored, epoch advanced, the exclusive
barrier held and the scan complete; the scan skips a slot only when empty, its epoch is later, or its process
is gone (kill() with ESRCH, or another start time). Not covered: iterators (they hold no guard), a guard
after the barrier's file lock failed, and readers already running when tracking is first switched on.""",
 technique="interprocedural typestate + memory-order analysis (LLVM IR)", note=PS),

 dict(id="C06", title="A replaced buffer is recycled only after the update that unlinks it",
  statement="Add and Remove never hand out again, for the same operation, a buffer they have released: new values, nodes and edge strings are reserved before the value buffer, node or edge string they replace is released (an edge string may be released earlier once its edge has been rewritten). An overwrite or a removal releases the old value's buffer, and not the new one, exactly once, after the in-place update that unlinks it is finished; an operation that fails releases no value buffer.",
  over=["inputs", "histories", "schedules"], q="every key, value, trie shape and free-list content, every read or allocation failure inside the operation",
  why="The free list returns a just-released buffer only if sizes match and the buffer is at the head of its list; the damage is an instant a concurrent reader must hit, or appears only after an I/O error.",
  files=["src/dict.cpp", "src/dict_mem.cpp"],
  mech=[("Dict::UpdateDataBuffer, DeleteDataFromEdge, Remove", "src/dict.cpp"), ("DictMem::AddLink, InsertNode, UpdateNode, RemoveEdgeByIndex and the Reserve*/Release* wrappers", "src/dict_mem.cpp")],
  design="""Typestate over every path of `Dict::Add` and `Dict::Remove`, callees entered, including the exits by
exception: `reserve-after-release` a reservation from a pool (data; index) after a release to it in the
same operation (an edge string is forgiven after the next finished update, which rewrites its edge);
`release-linked` a value buffer released before the unlinking update finished, inside an announced
window, or on a path that ends in an error; `release-once`, `release-old`, `release-fresh` exactly one value buffer
released per overwrite/removal and not the offset the same operation reserved (value tags).
Boundary: the four Reserve and three Release wrappers; not covered: sizes passed to release.""",
  technique="interprocedural typestate analysis with value tags (LLVM IR)", note=PS),
 dict(id="C07", title="Entry count and return codes agree with what an update changed",
  statement="Outside resource-collection mode the entry count is raised by one exactly when Add succeeds for a key that had no value, lowered by one exactly when Remove has unlinked a value, and is untouched by overwrites and by operations that fail before a value was linked or unlinked. Add returns IN_DICT only if it changed nothing, and Remove returns SUCCESS only if it unlinked a value.",
  over=["inputs", "histories"], q="every key, value, trie shape and overwrite flag, every error or int exception raised inside the operation",
  why="The tests count entries after clean sequences of leaf inserts and removals; a miscount needs a branching node, an overwrite of a prefix key, or an error in the middle of the operation.",
  files=["src/dict.cpp", "src/dict_mem.cpp"],
  mech=[("Dict::Add, UpdateDataBuffer (inc_count)", "src/dict.cpp"), ("Dict::Remove, DeleteDataFromEdge", "src/dict.cpp")],
  design="""The same exploration with the count changes, the finished in-place updates and the value-buffer
releases as typestate; at each exit of `Dict::Add`/`Dict::Remove` the return interval (or the exception) must fit:
`count-exact` (changed once, by one, in the right direction, iff the operation changed the key set)
and `success-real` (IN_DICT with nothing changed; Remove SUCCESS with a value unlinked). Exceptions
other than int (out of memory in the C++ library) are not considered.""",
  technique="interprocedural typestate analysis (LLVM IR)", note=PS),
 dict(id="C09", title="A handle opened without writer access never changes the database",
  statement="Whatever public DB call is made on a handle opened without ACCESS_MODE_WRITER (open, lookup, iteration, Add, Remove, RemoveAll, RemoveAllSync, WriteDataByOffset, CollectResource, Backup, Flush, Purge, Close), that handle never writes the index, the data, the free lists, the lock-free guard, the prefix cache or a header word other than its own registration (reader count, epoch slot, queue index), and never creates, truncates, grows or removes a database file; updates it asks for go to the async queue or are refused. ResourceCollection, DBTraverseBase and DBBackup cannot be constructed on such a handle.",
  over=["inputs", "configurations", "histories"], q="every public DB member function, every configuration and every state of the database",
  why="The tests never call the updating functions on a reader and compare the files; one dropped or weakened access test shows only as corruption when reader and writer update at the same time.",
  files=["src/db.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/rollable_file.cpp", "src/lock_free.cpp", "src/shm_queue_mgr.cpp", "src/util/prefix_cache.cpp", "src/mbt_base.cpp", "src/mb_backup.cpp"],
  mech=[("DB::Add, DB::Remove, DB::RemoveAll: queue unless writer", "src/db.cpp"), ("Dict::Add, Dict::Remove: NOT_ALLOWED unless writer", "src/dict.cpp"), ("constructors of DBTraverseBase and DBBackup", "src/mbt_base.cpp")],
  design="""`reader-pure`: every public member function of DB (access specifiers from the debug information) is
explored interprocedurally with each test of the access mode forced to "not writer": a test is recognised by what it
reads (an `options` word, an accessor that returns one, or the mode argument of the root) and the constant it masks, through
any number of parameters, wrappers, negations and temporaries. Alarms: any reachable call that writes through the storage
classes (RollableFile, FreeList, MmapFileIO/FileIO write, grow, truncate), the writer guard, the prefix cache or
remove_db_files; any libc call that writes, creates, grows, truncates or removes a file (the FIFO that wakes the writer excepted); any store
to an IndexHeader or LockFreeShmData word that is not the handle's own registration; memset/memcpy onto the header. Opening and unmapping
block files (CheckAndOpenFile, RemoveUnused) is judged once with its create/writer flag false; then every call must pass false.
The three maintenance constructors must not return normally. Not covered: what the user does with the pointer
GetDataPtrByOffset returns; the async writer of the same process, which works on the writer's handle.""",
  technique="interprocedural effect analysis under a fixed access mode (LLVM IR)", note=PS),
 dict(id="C10", title="A handle that is not open refuses every operation safely",
  statement="On a DB handle that never opened, failed to open or was closed, every lookup, update, iteration, backup and statistics member returns an error (false with an error code for InDB, a negative number for counts, a null pointer) and never success, and no public member of DB or DB::iterator uses the missing dictionary, async writer or mutex. Close marks the handle closed and forgets every object it destroys, on every path, so that any member, Close included, can be called afterwards.",
  over=["inputs", "histories"], q="every public member function of DB and its iterator, every reason for which a handle is not open, every order of calls",
  why="The tests close a handle and delete it; the remaining members are never called on a closed or half-opened handle, where a missing check is a crash or a write to unmapped memory.",
  files=["src/db.cpp", "src/db.h", "src/iterator.cpp", "src/lock.cpp"],
  mech=[("status checks of every public member", "src/db.cpp"), ("DB::Close, ~DB", "src/db.cpp"), ("DB::iterator", "src/iterator.cpp")],
  design="""`not-open`, `refused`: every public non-static member of DB and DB::iterator (from the debug information) is explored
interprocedurally twice: with `status` forced different from SUCCESS and `dict`, `async_writer` and the mutex null
(closed, never opened), and with status different from SUCCESS and a dictionary present (opening failed half way). Alarms: a
dereference of, or call on, the null pointers; in a member that works on the dictionary, a return value that means
success. `close`: typestate of DB::Close (destroyed, forgotten; status; mutex) on every path. Not covered: a handle moved or
destroyed by another thread during the call.""",
  technique="interprocedural analysis under forced handle states (LLVM IR)", note=PS),
 dict(id="C14", title="Failures reach the caller as return codes",
  statement="No public member function of DB or DB::iterator (constructors included) and no thread started by the library lets an exception thrown by the library escape. A public DB operation returns SUCCESS, or InDB reports no error, only if the dictionary, search, queue, backup or resource-collection operation it called did not fail: neither an error code that operation returned nor an int exception it raised is turned into success (resource collection that was skipped and a key the async writer found present excepted).",
  over=["inputs", "crash_points", "configurations"], q="every public operation, every point below it at which an error can be raised (I/O, bounds, resources, configuration)",
  why="Errors of the storage layer hardly occur in the tests; an uncaught exception ends the host process, a dropped code loses an update silently.",
  files=["src/db.cpp", "src/iterator.cpp", "src/async_writer.cpp", "src/mb_backup.cpp", "src/rollable_file.cpp", "src/dict.cpp", "src/mb_rc.cpp"],
  mech=[("try/catch (int) around dictionary operations", "src/db.cpp"), ("throw (int)MBError::... throughout the storage layer", "src/dict_mem.cpp, src/rollable_file.cpp, src/mb_rc.cpp")],
  design="""`no-escape`: fixed point over the call graph (calls through pointers resolved by type) of the exception types that
can leave each function, through the landing pads on the way, matched by type (an enum thrown is not caught as int). It must be empty for every
public member and for every function given to pthread_create. `error-reported`: every public DB operation is explored with each
operation it delegates to replaced by its three outcomes (success; an error code; an int exception, if it can raise one); on every exit after a failure the
returned interval must exclude SUCCESS. Not covered: exceptions of the C++ library (out of memory).""",
  technique="exception-escape fixed point + interprocedural value analysis (LLVM IR)", note=PS),
 dict(id="C16", title="Async writer changes are serialized, routed right, and end before Close ends",
  statement="While an async writer thread exists, its process changes the database (Add, Remove, RemoveAll, RemoveAllSync, WriteDataByOffset, resource collection, backup copy) only with the writer lock held; the lock is released on every path, exceptions included, and never taken twice. The process-wide async writer is handed out only to handles of its own database directory; a destroyed async writer, or one whose construction failed, can not be reached through it. Close tells the thread to stop and joins it before it destroys the async writer or the dictionary. Waking the thread never raises SIGPIPE in the caller.",
  over=["schedules", "histories", "inputs"], q="every function of the async thread, every AsyncWriter method DB calls, every public DB member of a handle with an async writer; every path through them",
  why="The tests run one async writer with well-behaved timing; an update outside the lock, a lock kept by an error path, or a thread that outlives Close shows only in a rare interleaving, as corruption or a crash.",
  files=["src/async_writer.cpp", "src/db.cpp", "src/mb_pipe.cpp", "src/mb_rc.cpp"],
  mech=[("AsyncWriter::async_writer_thread, AddWithLock: writer_lock", "src/async_writer.cpp"), ("AsyncWriter::GetInstance, CreateInstance, ~AsyncWriter", "src/async_writer.cpp"), ("DB::Close: StopAsyncThread before delete", "src/db.cpp"), ("MBPipe::Signal", "src/mb_pipe.cpp")],
  design="""`locked`: typestate (lock held; thread running; told to stop) through the thread function, through every AsyncWriter method
DB calls, through every public DB member with async_writer forced non-null and the writer bit set, and through DB::InitDBEx, where the
thread starts to run with pthread_create. Lock and guard objects (timed_mutex, unique_lock, lock_guard; deferred, timed and moved ones) are modelled. Alarms:
a storage-writer call, a store to an IndexHeader word other than the queue, handle and rc_flag words, or a backup, while the thread runs and the lock is not held; an
exit with the lock held; a second acquisition; a release without; destruction of dictionary or writer before pthread_join;
a join before the stop flag was set. `instance`: the destructor clears the instance; it is stored only after construction; whoever returns it compared the
directories of the two handles; no other class loads it. `sigpipe`: every write of MBPipe happens with SIGPIPE blocked, and the mask is restored. Not covered: lookups on the
async writer's own handle outside the lock (Find refuses there; ReadDataByOffset and iterators do not lock); a
handle destroyed while another thread is inside one of its calls.""",
  technique="interprocedural lock typestate analysis (LLVM IR)", note=PS),
 dict(id="C11", title="A queued update is owned by one party at a time and carried out once",
  statement="An update sent through the shared-memory queue: the sender writes a slot only after it has seen it free and claimed it with an atomic step that returns the previous claim, never writes it again after publication, never leaves a claimed slot unpublished, copies at most the slot's capacity, stores every member the consumer reads for that type of request (lengths equal to the bytes copied), and reports SUCCESS exactly if it published. The consumer reads a slot only after it has seen it published, carries out the operation the request asks for, with the key, data, flag and limits of the request, exactly once whether or not it fails, then advances the writer index by one and gives the slot back (in_use before num_reader), and does not touch it afterwards. Publication and release are release operations, claim and observation acquire operations. A slot is selected modulo the queue size of the header. (A collection requested while one is running is skipped.)",
  over=["schedules", "histories", "inputs"], q="every request function of Dict, every type of request, every path through the async thread and ProcessTask; any interleaving of processes",
  why="The tests run few senders and look at final results; a request lost, doubled or mixed up with its slot's previous content needs two processes inside the same few instructions.",
  files=["src/shmq_update.cpp", "src/async_writer.cpp", "src/shm_queue_mgr.h"],
  mech=[("Dict::SHMQ_AcquireSlot, SHMQ_PrepareSlot, SHMQ_Add, SHMQ_Remove, SHMQ_Backup, SHMQ_CollectResource", "src/shmq_update.cpp"), ("AsyncWriter::async_writer_thread, ProcessTask", "src/async_writer.cpp")],
  design="""`request`: typestate of the slot (seen free, claimed, published) with the set of members written, through every function
of Dict that can publish, with intervals for the lengths copied and symbolic equality of copied and stored length; the memory orders of every
step; the return interval at each exit. `consume`: the async thread and ProcessTask are explored once per
type of request found at the senders (and one unknown type) with the type of the slot fixed: typestate (idle, owned, in_use cleared, released), number of
operations done, writer-index steps; the operation and its arguments are matched to the sender of that type; the four collection limits are
followed from CollectResource through the slot to ReclaimResource. Members read for a type must be written by every publication of it.
`slot-index`: every selection of a slot is `x % async_queue_size`. Known findings: ProcessTask drops removals (and RemoveAll in the
rc phase) while a collection is running. Not covered (liveness): a slot whose sender is slow is skipped by NextShmSlot and only served when the
index comes round; a slot whose sender died stays claimed; senders that fail 65536 times on one claimed slot.""",
  technique="interprocedural typestate analysis per request type (LLVM IR)", note=PS),
 dict(id="C13", title="A database is open for writing by one handle at a time",
  statement="A handle opened with write access creates or uses the dictionary, and changes, recreates or removes any part of the database, only while it is the registered writer of the database path in its process and, unless memory-only, holds the exclusive file lock of the database; the registration is an atomic test-and-set under the pool's mutex, made before the lock file is opened. Otherwise the open is refused. Both are held until the dictionary is closed and until a database that could not be opened has been erased, are given up by Close, destruction and assignment on every path, are never given up or taken over by a handle that does not own them, and are not lost when cached files are cleared.",
  over=["schedules", "histories", "configurations", "inputs"], q="every path of opening, closing, destroying and assigning a handle, memory-only or not, registered, refused in the process or refused by the file lock; every method of ResourcePool",
  why="The tests try one refused handle in one process. Two writers, or a database erased under a writer, need a second process, a refused handle that is closed, or an open that fails half way.",
  files=["src/db.cpp", "src/resource_pool.cpp", "src/util/utils.cpp"],
  mech=[("DB::PreCheckDB, InitDBEx, InitDB, ReInit", "src/db.cpp"), ("DB::CloseDict, ReleaseWriter, ~DB, operator=", "src/db.cpp"), ("ResourcePool::AddResourceByPath, RemoveResourceByPath, RemoveResourceByDB", "src/resource_pool.cpp"), ("acquire_file_lock, acquire_file_lock_wait_n, release_file_lock", "src/util/utils.cpp")],
  design="""`protocol`: typestate (registered; file lock held; writer_registered; last opened descriptor locked, with the kind of lock from the
flock structure) through InitDB from a fresh handle and through every public DB member that touches the lock, each from a registered, a refused
and a half-refused handle, with the write bit set and the memory-only bit both ways; DB.status is tracked by value because it decides whether the files are erased.
Alarms: any call that may change the database (reaches a storage writer, a header store or a file-removing system call) without registration and
lock; a descriptor kept as the lock whose fcntl did not succeed with F_WRLCK; the lock file opened before registration (closing it
would drop the lock of the process); another file than the registered one; releasing what is not owned; an exit on which registration,
lock and flag disagree, or, after Close or destruction, are left. `registry`: every access to the pool's map happens with its mutex held; an entry is added only if found absent under the
same hold; success is returned exactly if added; erasing by prefix skips registrations. Limits: one path, two spellings (a symbolic link)
are two registrations in a process; InitDB goes on when the open lock `_mbh_lock` can not be had in five seconds.""",
  technique="interprocedural typestate analysis (LLVM IR)", note=PS),
 dict(id="C12", title="What an operation takes it gives back on every path",
  statement="Every descriptor, stdio stream, directory stream, file mapping, heap block or object, mutex and file lock that the library takes is, on every path out of the operation that took it, including every error return and every exception thrown by the library, given back, handed to the caller, or kept in an object; it is not taken again, and a descriptor or mapping kept in an object is not overwritten there, before it is given back. A mutex or file lock taken for the duration of an operation is released before the operation ends. What an object keeps is given back by the object or its owner when it goes away: descriptors and mappings on every path of the destructor.",
  over=["inputs", "histories", "fault_sequences"], q="every call site in the library that acquires such a resource, directly or through a function that hands it to its caller; every path from there to the end of the operation",
  why="A leak or a mutex left locked shows only on an error path (lock refused, disk full, truncated file, failed mapping), and tests neither force these nor count descriptors afterwards.",
  files=["src/util/utils.cpp", "src/mb_backup.cpp", "src/resource_pool.cpp", "src/util/prefix_cache.cpp", "src/mmap_file.cpp", "src/file_io.cpp", "src/mb_data.cpp", "src/db.cpp"],
  mech=[("acquire_file_lock", "src/util/utils.cpp"), ("DBBackup::copy_file", "src/mb_backup.cpp"), ("ResourcePool", "src/resource_pool.cpp"), ("PrefixCache::map_shared, map_embedded, ~PrefixCache", "src/util/prefix_cache.cpp"), ("MmapFileIO, FileIO, MBPipe, MBData destructors", "src/mmap_file.cpp"), ("DB::AcquireRebuildBarrierExclusive", "src/db.cpp")],
  design="""`released`: for every acquisition site an interprocedural typestate (not held, held, kept in field f) of that one resource from the entry of the function, with
the success and failure value of the call as intervals, aliases through locals, struct members, ternaries and parameters, and release through helpers, destructors of
locals and `delete`; smart pointers and containers count as owners. A function that returns the resource, or returns with the lock held, is an acquisition for its callers
(fixed point). Exceptions are those thrown by the library's own code; exhaustion of memory inside the standard library is not modelled. `owned`: for every field a resource is kept in, a
release of that field by the class (or one derived from it) reachable from a destructor; for descriptors and mappings an exploration of
the destructor with the field, and what is stored with it, valid. The shared reader barrier is judged by C05, the writer's file lock by C13, the writer lock by C16. std::unique_lock and the like release by construction. Blocks
of the database itself are C06.""",
  technique="interprocedural resource typestate analysis (LLVM IR)", note=PS),
 dict(id="C15", title="A storage failure is reported, not answered as success or absence",
  statement="When a read or write of the backing files fails or comes back short, when space cannot be had (a block, a mapping, a buffer, a jemalloc allocation, a value buffer), or when a piece of the search structure cannot be read, the operation of the public API that needed it (open, Add, Remove, RemoveAll, Find, FindLongestPrefix, FindLowerBound, ReadDataByOffset, WriteDataByOffset, Backup, CollectResource through the writer) returns an error other than NOT_EXIST and IN_DICT, or leaves the handle with an error status; it does not return success, does not take the failure for an absent key, and does not go on with a file that did not open or did not get its size. A buffer that is not mapped is read through its file instead.",
  over=["fault_sequences", "inputs", "histories"], q="every call site in the library of an operation that can fail in this way, directly or through its callees; every path from the failed call to the end of the function",
  why="The tests run on storage that works: a failed pread, a full disk or an unmapped block at one of the 300 places is never produced.",
  files=["src/dict.cpp", "src/dict_mem.cpp", "src/detail/search_engine.cpp", "src/rollable_file.cpp", "src/mmap_file.cpp", "src/file_io.cpp", "src/resource_pool.cpp", "src/mb_backup.cpp", "src/mb_rc.cpp", "src/db.cpp"],
  mech=[("Dict::ReadDataFromEdge, Add, UpdateDataBuffer, ReserveData", "src/dict.cpp"), ("DictMem::FindNext, NextEdge, UpdateNode, ReserveNode", "src/dict_mem.cpp"), ("SearchEngine", "src/detail/search_engine.cpp"), ("RollableFile::CheckAndOpenFile, Reserve, RandomRead, RandomWrite", "src/rollable_file.cpp"), ("MmapFileIO::MmapFileIO, FileIO::AllocateFile", "src/mmap_file.cpp"), ("DBBackup::copy_file", "src/mb_backup.cpp"), ("DB::InitDBEx", "src/db.cpp")],
  design="""`reported`: starting from the operations that touch storage (RollableFile, ReadData, Malloc, GetShmPtr, MBData::Resize, stdio in the backup), every call site is forced to
fail in each way it can (0 or -1 or fewer bytes, an error code, NULL, an exception) and the function is explored from entry with intervals; every exit reached after the failure must be an
exception, an error other than NOT_EXIST/IN_DICT, NULL for a pointer, or a stored non-zero DB.status. How a function reports (codes with their possible values, one boolean value, byte count passed
on, exception) is computed and becomes a failure of its own call sites (fixed point), so helpers in between are followed. After a NULL from GetShmPtr a read or write through the file counts as the answer.
`sized`, `opened`: a block file whose space could not be had is closed in the constructor; a file that is not open does not enter the pool.
Functions with another answer than an error, and not judged: seeding and reading of the prefix cache and NextEdgeFast (a failure falls back to the walk), ReleaseBuffer (space is lost, nothing else), LRU eviction, replay of
the rc tree and queued tasks (no receiver; logged), iterators and DB::InDB (no error channel), startup rebuild and recovery at open (they clear and log).""",
  technique="interprocedural fault-propagation analysis with intervals (LLVM IR)", note=PS),
 dict(id="C08", title="Sizes are checked before use and no fixed-size buffer is overrun",
  statement="A key of 1 to 255 bytes and a value of 1 to 32767 bytes can be added; longer or empty ones never reach the search structure or the value file, whichever way they come (direct, asynchronous, through the shared queue, which takes none that do not fit its slots), so that the length of an edge fits its one byte and the length of a value its two. For every key, value, edge length and stored byte, no copy into or out of a buffer of fixed size (node buffers, edge fields and their in-line text, key buffers, queue slots, exception buffer, lock-free offset ring, hash-map keys, cache entries, log messages) and no variable index goes beyond the buffer. The free lists have a list for every size of buffer the pools can release.",
  over=["inputs"], q="every call in the library that copies, reads or writes a counted number of bytes from or to an object of fixed size, every variable index into a fixed array, every store of an edge length, every reservation of space for a value",
  why="The tests use keys of about 30 bytes and short values; the extreme lengths at each of the 146 copies and the lengths other processes put into the queue are never exercised.",
  files=["src/dict.cpp", "src/dict_mem.cpp", "src/detail/search_engine.cpp", "src/shmq_update.cpp", "src/async_writer.cpp", "src/lock_free.cpp", "src/logger.cpp", "src/drm_base.h", "src/hash_map.cpp"],
  mech=[("Dict::Add, ReserveData, ReadData users", "src/dict.cpp"), ("DictMem::AddRootEdge, InsertNode, AddLink, UpdateNode, FindNext", "src/dict_mem.cpp"), ("Dict::SHMQ_Add, SHMQ_Remove, SHMQ_Backup", "src/shmq_update.cpp"), ("AsyncWriter::ProcessTask", "src/async_writer.cpp"), ("LockFree::WriterLockFreeStop, ReaderLockFreeStop", "src/lock_free.cpp"), ("Logger::Log", "src/logger.cpp"), ("DRMBase::DRMBase", "src/drm_base.h")],
  design="""Whole-program value ranges: on a copy of the module LLVM's FunctionAttrs, EarlyCSE and GVN forward stored values to loads; the range of every integer argument is the union over its call sites, and of every
integer field the union over the stores of its class of memory cells, found by a fixed point over LazyValueInfo, scalar evolution and dominating conditions (also those a helper function computes). `copies`: the
number of bytes at each copy must be at most the capacity of the fixed object (locals, struct members, the fields of an edge); lengths of queue slots must not be negative. `lengths`: the byte stored as an edge's length is at most 255, the first edge's key has at least one byte,
space for values is reserved for 1 to MAX_DATA_SIZE bytes. What the ranges alone cannot show is shown by the path-sensitive engine from the function, then from its callers inside the search structure.
`free-lists`: alignment times number of lists of each pool reaches the largest buffer. `text`: no formatting into a buffer without its size. Buffers of variable size (mappings, heap arrays sized at run time) are not judged here.""",
  technique="whole-program value-range analysis (LLVM IR: LVI, SCEV, dominating conditions, field ranges) with path-sensitive fallback", note=PS),
 dict(id="C30", title="A lookup returns the last value stored for exactly its key",
  statement="After any history of additions, overwrites and removals, a lookup of a key returns the value stored last for exactly that key, and nothing when the key was never added or was removed last. Keys that share prefixes do not disturb each other.",
  over=["histories", "inputs"], q="all histories of updates, all keys of 1 to 255 bytes and all values",
  why="The tests use word lists and hashes in a few orders; the shape of the trie depends on the whole history.",
  files=["src/dict.cpp", "src/dict_mem.cpp", "src/detail/search_engine.cpp"], mech=[("Dict::Add, Remove", "src/dict.cpp"), ("DictMem::AddLink, InsertNode, UpdateNode", "src/dict_mem.cpp"), ("SearchEngine::find", "src/detail/search_engine.cpp")],
  na="functional correctness of a trie kept as bytes at computed offsets of a file: it needs an inductive invariant over the heap of nodes (shape and content), which no static analysis in reach infers; necessary conditions are decided by C03, C06, C07, C08 and C15."),
 dict(id="C31", title="Longest-prefix and lower-bound lookups give the extreme matching entry",
  statement="The longest-prefix lookup returns the longest stored key which is a prefix of the given one, and the lower-bound lookup the greatest stored key not above it, for every content of the database.",
  over=["histories", "inputs"], q="all contents and all search keys", why="The answers compared in the tests come from a few fixed sets of keys.",
  files=["src/detail/search_engine.cpp"], mech=[("SearchEngine::findPrefix, lowerBound", "src/detail/search_engine.cpp")],
  na="the answer depends on the content of all nodes and on their order at run time; no bound a static analysis could establish relates the path taken to the extreme entry."),
 dict(id="C32", title="An iteration yields every entry exactly once",
  statement="An iteration over a database that does not change meanwhile yields every entry exactly once, with its key and value, and then ends.",
  over=["histories", "inputs"], q="all contents", why="Only a few contents are iterated in the tests.",
  files=["src/iterator.cpp"], mech=[("DB::iterator::next", "src/iterator.cpp")],
  na="exactly-once traversal is a statement about the run-time tree and the iterator's stack together; termination depends on the absence of cycles in stored offsets."),
 dict(id="C33", title="Garbage collection and compaction keep every live entry",
  statement="After garbage collection or compaction every entry that was live before it, or was added while it ran, is found with the same value, and nothing else is.",
  over=["histories", "schedules"], q="all contents and all updates that arrive during the collection", why="The tests run the collection on a few generated databases.",
  files=["src/mb_rc.cpp"], mech=[("ResourceCollection::ReorderBuffers, CollectBuffers, ProcessRCTree", "src/mb_rc.cpp")],
  na="relocation correctness relates offsets in every moved buffer to the one edge that refers to it, a bijection over run-time offsets that no static argument in reach bounds; the in-place updates it makes are covered by C01 and C02."),
 dict(id="C34", title="Eviction removes the oldest entries first and stops at the limits",
  statement="When the limits on size or number of entries are exceeded, entries are evicted bucket by bucket from the oldest until the limits hold again, and newer entries stay.",
  over=["histories"], q="all histories of updates and limits", why="A few sizes of bucket and limits are tried.",
  files=["src/mb_rc.cpp"], mech=[("ResourceCollection::LRUEviction", "src/mb_rc.cpp")],
  na="age is a 16-bit counter that wraps and is compared at run time over all entries; the number of rounds and what they free are quantities no static analysis bounds."),
 dict(id="C35", title="Memory and file sizes stay within the configured caps",
  statement="The memory mapped for the index and for the data, and the number of files, stay within what the configuration allows for every workload.",
  over=["configurations", "histories"], q="all configurations and workloads", why="Usage is not measured by the tests.",
  files=["src/rollable_file.cpp", "src/mmap_file.cpp"], mech=[("RollableFile::CheckAndOpenFile, RemoveUnused", "src/rollable_file.cpp")],
  na="a run-time sum over all open blocks and processes; it cannot be bounded from the source."),
 dict(id="C36", title="Every accepted queued update is applied eventually, in the producer's order",
  statement="While an asynchronous writer runs, every update that was accepted into the queue is applied after a finite time, and two updates by the same producer are applied in its order.",
  over=["schedules", "fault_sequences"], q="all schedules, including producers that stop at any point", why="Liveness cannot be shown by any finite run.",
  files=["src/shmq_update.cpp", "src/async_writer.cpp"], mech=[("Dict::SHMQ_AcquireSlot", "src/shmq_update.cpp"), ("AsyncWriter::NextShmSlot", "src/async_writer.cpp")],
  na="a liveness property over the schedules of several processes, one of which may die while it holds a slot; the safety half (ownership, publication, exactly once) is decided by C11."),
 dict(id="C37", title="A backup is a consistent copy of the database",
  statement="A backup that reports success can be opened and holds exactly the entries the database had at one moment during the backup.",
  over=["schedules", "histories"], q="all contents and all concurrent updates", why="One backup of a quiet database is compared.",
  files=["src/mb_backup.cpp"], mech=[("DBBackup::Backup", "src/mb_backup.cpp")],
  na="consistency of the copied bytes depends on which updates run meanwhile and on file content; that failures of the copy are reported is decided by C15, that queued backups run under the writer's lock by C16."),
 dict(id="C26", title="A memory-only database touches no database file on disk",
  statement="On a database opened with CONSTS::MEMORY_ONLY_MODE no operation of the handle opens, creates, changes, truncates, renames or removes a header, block, free-list or backup file on disk; every block of the index and of the data is mapped anonymously, opening and closing it (also when the opening fails) leave an on-disk database in the same directory alone, and no backup of it is written. The lock files, the shared queue file, the FIFO that wakes the writer and the log are not meant.",
  over=["configurations", "histories"], q="every public operation of a handle in memory-only mode, every way it can fail, every option combined with the mode, and the background work (rebuild, collection, eviction)",
  why="The tests open memory-only databases in empty directories and look at the entries only; what happens to files of a database in the same directory, with prefix cache, during garbage collection or after a failed open, is never looked at.",
  files=["src/db.cpp", "src/resource_pool.cpp", "src/mmap_file.cpp", "src/rollable_file.cpp", "src/dict.cpp"],
  mech=[("DB::InitDB, Close, Backup", "src/db.cpp"), ("ResourcePool::OpenFileWithKey", "src/resource_pool.cpp"), ("MmapFileIO::MmapFileIO, MapFile", "src/mmap_file.cpp"), ("RollableFile::RemoveUnused", "src/rollable_file.cpp"), ("Dict::Init prefix cache", "src/dict.cpp")],
  design="""`memory-only`: from every public function of DB and every thread entry, along every path which is possible when the option bit is set in each object that keeps the options (branches on the bit are decided that way,
also through helpers and locals), no call is reached that creates, writes by name, truncates, renames or removes a file, writes the header or the free lists, erases the database or runs a backup; a block object is built only with flags that
surely carry the anonymous bit. `files`: with that bit the constructor of a block opens nothing and every mmap in MapFile is anonymous. Judged per function: opening a block, dropping unused blocks.
Assumed: the options of a handle reach its parts unchanged (that a block already cached under the same path in the process came from a handle of the same mode is not shown).""",
  technique="mode-conditioned effect analysis over the call graph (LLVM IR)", note=PS),
]
