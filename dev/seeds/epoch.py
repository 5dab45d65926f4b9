def EP(args):
    return """export LD_LIBRARY_PATH="$lib"
"$T/demo" "$T/db" %s 2>/dev/null > "$T/out"; r=$?
grep -v jemalloc "$T/out" | head -5
exit $r
""" % args
SEEDS += [
 dict(id="c05-slot-leak", prop="C05", src="ep.cpp", run=EP("0"), needs="epoch tracking active (a startup rebuild in progress) and a lookup of a key that is not there",
  breaks="a lookup that finds nothing returns without ending its reader guard, so its slot stays announced and the rebuild never recycles a block",
  edits=[("src/db.cpp", """    int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, mdata);
    EndReaderEpochGuard(reader_epoch);
    return rval;""", """    int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, mdata);
    if (rval != MBError::NOT_EXIST)
        EndReaderEpochGuard(reader_epoch);
    return rval;""")]),
 dict(id="c05-other-user", prop="C05", src="ep.cpp", run=EP("1"), needs="the reader process belongs to another user, so that kill(pid, 0) fails with EPERM, and its start time is not recorded",
  breaks="a reader whose process cannot be signalled is taken for dead and the block it reads is recycled",
  edits=[("src/mb_rc.cpp", "if (kill(static_cast<pid_t>(pid), 0) != 0 && errno == ESRCH) {", "if (kill(static_cast<pid_t>(pid), 0) != 0) {")]),
 dict(id="c05-retire-early", prop="C05", src="ep.cpp", run=EP("2 d"), needs="a reader that starts while a data block is being evacuated",
  breaks="the epoch is advanced before the block's contents are moved, so readers that enter the block during the evacuation are not waited for",
  edits=[("src/mb_rc.cpp", """    TraverseDB(RESOURCE_COLLECTION_PHASE_EVACUATE_DATA);

    uint64_t retire_epoch = header->reader_epoch.fetch_add(1, std::memory_order_seq_cst);
""", """    uint64_t retire_epoch = header->reader_epoch.fetch_add(1, std::memory_order_seq_cst);

    TraverseDB(RESOURCE_COLLECTION_PHASE_EVACUATE_DATA);
""")]),
]
