def RO(args=""):
    return """export LD_LIBRARY_PATH="$lib"
"$T/demo" "$T/db" %s 2>/dev/null > "$T/out"; r=$?
grep -v jemalloc "$T/out" | head -5
exit $r
""" % args
SEEDS += [
 dict(id="c09-reader-clears", prop="C09", src="ro.cpp", run=RO(), needs="RemoveAllSync on a handle without writer access",
  breaks="the reader empties the database itself instead of queueing the request",
  edits=[("src/db.cpp", """int DB::RemoveAllSync()
{
    if (status != MBError::SUCCESS)
        return MBError::NOT_INITIALIZED;
    if (!(options & CONSTS::ACCESS_MODE_WRITER))
        return MBError::NOT_ALLOWED;
""", """int DB::RemoveAllSync()
{
    if (status != MBError::SUCCESS)
        return MBError::NOT_INITIALIZED;
    // the synchronous variant bypasses the queue
    if (options & (CONSTS::ASYNC_WRITER_MODE | CONSTS::READ_ONLY_DB))
        return MBError::NOT_ALLOWED;
""")]),
 dict(id="c09-reader-removes", prop="C09", src="ro.cpp", run=RO(), needs="Remove on a handle without writer access; each of the two changed sites alone is harmless",
  breaks="the reader unlinks the key and recycles its buffers, racing with the writer",
  edits=[("src/db.cpp", """    if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
        try {
            rval = dict->Remove(""", """    if (async_writer == NULL && !(options & CONSTS::ASYNC_WRITER_MODE)) {
        try {
            rval = dict->Remove("""), ("src/dict.cpp", """    if (!(options & CONSTS::ACCESS_MODE_WRITER)) {
        return MBError::NOT_ALLOWED;
    }
    if (data.options""", """    if (options & CONSTS::READ_ONLY_DB) {
        return MBError::NOT_ALLOWED;
    }
    if (data.options""")]),
 dict(id="c09-reader-resets-guard", prop="C09", src="ro.cpp", run=RO(), needs="a reader opens the database while a writer is active",
  breaks="the reader resets the writer's lock-free guard words",
  edits=[("src/lock_free.cpp", """    if (mode & CONSTS::ACCESS_MODE_WRITER) {
        // Clear""", """    if (!(mode & CONSTS::READ_ONLY_DB)) {
        // Clear""")]),
]
