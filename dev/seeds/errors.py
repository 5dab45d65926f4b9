def ER(k):
    return """"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
SEEDS += [
 dict(id="c15-value-short", prop="C15", src="er.cpp", run=ER("value"), needs="a read of a value beyond the mapped blocks comes back short",
  breaks="only a failed read is noticed, a short one is taken for the value",
  edits=[("src/dict.cpp", """    if (ReadData(data.buff, data_len[0], data_off) != data_len[0])
        return MBError::READ_ERROR;

    data.data_len = data_len[0];
    data.bucket_index = data_len[1];
    return MBError::SUCCESS;
}

// Delete""", """    if (ReadData(data.buff, data_len[0], data_off) <= 0 && data_len[0] > 0)
        return MBError::READ_ERROR;

    data.data_len = data_len[0];
    data.bucket_index = data_len[1];
    return MBError::SUCCESS;
}

// Delete""")]),
 dict(id="c15-tail-ignored", prop="C15", src="er.cpp", run=ER("tail"), needs="a read of the rest of an edge beyond the mapped blocks fails",
  breaks="a failed comparison of an edge is reported as an absent key",
  edits=[("src/detail/search_engine.cpp", """            rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
            if (rval == MBError::READ_ERROR)
                break;
            if (rval == MBError::NOT_EXIST)
                break;""", """            rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
            if (rval != MBError::SUCCESS) {
                rval = MBError::NOT_EXIST;
                break;
            }""")]),
 dict(id="c15-no-space", prop="C15", src="er.cpp", run=ER("full"), needs="no space for another block of the data file",
  breaks="a block file whose space could not be had is used all the same",
  edits=[("src/mmap_file.cpp", """        if (AllocateFile(filesize) != 0) {
            Close();
            return;
        }""", """        if (AllocateFile(filesize) != 0) {
            Logger::Log(LOG_LEVEL_ERROR, "no space for file %s", fpath.c_str());
            return;
        }""")]),
 dict(id="c15-backup-full", prop="C15", src="er.cpp", run=ER("backup"), needs="the destination of a backup fills up",
  breaks="a backup with missing blocks is reported as complete",
  edits=[("src/mb_backup.cpp", """        if (write_count != 1) {
            rval = MBError::WRITE_ERROR;
            break;""", """        if (write_count != 1) {
            Logger::Log(LOG_LEVEL_ERROR, "could not write to %s", dest_path.c_str());
            break;""")]),
]
