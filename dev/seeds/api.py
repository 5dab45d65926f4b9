def API(k):
    return """"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
SEEDS += [
 dict(id="c10-find-unopened", prop="C10", src="api.cpp", run=API("unopened"), needs="a lookup through a handle whose opening failed",
  breaks="Find works on the null dictionary of a handle that was never opened",
  edits=[("src/db.cpp", """    if (key == NULL)
        return MBError::INVALID_ARG;
    if (status != MBError::SUCCESS)
        return MBError::NOT_INITIALIZED;
    if (options & CONSTS::ASYNC_WRITER_MODE)
        return MBError::NOT_ALLOWED;
""", """    if (key == NULL)
        return MBError::INVALID_ARG;
    if (status == MBError::DB_CLOSED)
        return MBError::NOT_INITIALIZED;
    if (options & CONSTS::ASYNC_WRITER_MODE)
        return MBError::NOT_ALLOWED;
""")]),
 dict(id="c10-close-keeps-async", prop="C10", src="api.cpp", run=API("closed2"), needs="an async writer closed twice",
  breaks="Close leaves the pointer to the destroyed async writer in the handle",
  edits=[("src/db.cpp", """        delete async_writer;
        async_writer = NULL;
""", """        delete async_writer;
""")]),
 dict(id="c10-pending-size", prop="C10", src="api.cpp", run=API("unopened"), needs="statistics of a handle whose opening failed",
  breaks="the pending buffer size is read through the null dictionary",
  edits=[("src/db.cpp", """int64_t DB::GetPendingIndexBufferSize() const
{
    if (status != MBError::SUCCESS)
        return -1;
""", """int64_t DB::GetPendingIndexBufferSize() const
{
    if (status == MBError::DB_CLOSED)
        return -1;
""")]),
 dict(id="c14-backup-throws-enum", prop="C14", src="api.cpp", run=API("backup"), needs="a backup into a directory that holds one already",
  breaks="the error is thrown with a type nobody catches and ends the process",
  edits=[("src/mb_backup.cpp", """    if (access(bk_header_path.c_str(), R_OK) == 0)
        throw (int)MBError::OPEN_FAILURE;""", """    if (access(bk_header_path.c_str(), R_OK) == 0)
        throw MBError::OPEN_FAILURE;""")]),
 dict(id="c14-remove-async-bounds", prop="C14", src="api.cpp", run=API("queued"), needs="RemoveAsync with a key longer than a queue slot",
  breaks="a request that was refused is reported as accepted",
  edits=[("src/db.cpp", """        if (rval != MBError::TRY_AGAIN || retry_cnt++ > MB_SHM_RETRY_TIMEOUT) {
            break;
        }
        usleep(1);
    } while (true);
    return rval;""", """        if (rval != MBError::TRY_AGAIN || retry_cnt++ > MB_SHM_RETRY_TIMEOUT) {
            break;
        }
        usleep(1);
    } while (true);
    // nothing is left to do once the request has left the retry loop
    return rval == MBError::TRY_AGAIN ? rval : MBError::SUCCESS;""")]),
]
