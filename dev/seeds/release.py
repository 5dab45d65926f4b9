def RS(k):
    return """"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
SEEDS += [
 dict(id="c12-refused-lock-fd", prop="C12", src="rs.cpp", run=RS("lock"), needs="writer opens refused because another process holds the lock",
  breaks="the descriptor of the lock file is not closed when the lock cannot be taken",
  edits=[("src/util/utils.cpp", """    if (fcntl(fd, F_SETLK, &writer_lock) != 0) {
        close(fd);
        return -1;""", """    if (fcntl(fd, F_SETLK, &writer_lock) != 0) {
        if (errno != EAGAIN && errno != EACCES)
            close(fd);
        return -1;""")]),
 dict(id="c12-backup-full-disk", prop="C12", src="rs.cpp", run=RS("backup"), needs="a backup whose destination runs out of space",
  breaks="a failed write leaves both streams of the copy open",
  edits=[("src/mb_backup.cpp", """        if (write_count != 1) {
            rval = MBError::WRITE_ERROR;
            break;""", """        if (write_count != 1) {
            Logger::Log(LOG_LEVEL_ERROR, "Backup failed: could not write %s", dest_path.c_str());
            throw (int)MBError::WRITE_ERROR;""")]),
 dict(id="c12-anon-unmap", prop="C12", src="rs.cpp", run=RS("memory"), needs="memory-only databases opened and closed repeatedly in one process",
  breaks="the anonymous mapping of a memory-only file outlives the object that owns it",
  edits=[("src/mmap_file.cpp", """    if (mmap_file && addr != NULL) {""", """    if (mmap_file && addr != NULL && IsOpen()) {""")]),
]
