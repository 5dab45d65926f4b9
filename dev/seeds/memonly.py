def MO(k):
    return """mkdir -p "$T/d/db" "$T/d/q" "$T/d/bk"
"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
SEEDS += [
 dict(id="c26-read-opens", prop="C26", src="mo.cpp", run=MO("read"), needs="a read in a block the memory-only database does not have while a file of that name exists",
  breaks="only blocks that are created are kept in memory; others are opened from disk",
  edits=[("src/resource_pool.cpp", "        if (mode & CONSTS::MEMORY_ONLY_MODE)\n            flags", "        if (create_file && (mode & CONSTS::MEMORY_ONLY_MODE))\n            flags")]),
 dict(id="c26-backup", prop="C26", src="mo.cpp", run=MO("backup"), needs="the backup of a memory-only database whose directory has files of another",
  breaks="only the anonymous flag of files, which a database never has, is checked",
  edits=[("src/db.cpp", """    int rval = MBError::SUCCESS;

    if (options & CONSTS::MEMORY_ONLY_MODE)
        return MBError::NOT_ALLOWED;
""", """    int rval = MBError::SUCCESS;
""")]),
 dict(id="c26-guard", prop="C26", src="mo.cpp", run=MO("find"), needs="a lookup in a memory-only database whose directory has a header file of another",
  breaks="the barrier between rebuild and lookups opens and locks the other database's header file",
  edits=[("src/db.cpp", """        return MBError::SUCCESS;
    if (options & CONSTS::MEMORY_ONLY_MODE)
        return MBError::NOT_INITIALIZED;
""", """        return MBError::SUCCESS;
    if ((options & CONSTS::MEMORY_ONLY_MODE) && mb_dir.empty())
        return MBError::NOT_INITIALIZED;
""")]),
]
