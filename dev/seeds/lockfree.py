STEPW = '"$T/demo" window "$T/db"'
STEPC = '"$T/demo" crash "$T/db"'
SEEDS += [
 dict(id="c01-split-publish-early", prop="C01", src="step.cpp", run=STEPW, needs="a reader that follows the edge between the withdrawal of the announcement and the write of the split edge",
  breaks="the window around the parent edge of an inserted node is closed before the edge bytes are written",
  edits=[("src/dict_mem.cpp", """    WriteEdge(edge_ptrs);
#ifdef __LOCK_FREE__
    lfree->WriterLockFreeStop();
    header->excep_updating_status = EXCEP_STATUS_NONE;
#endif

    header->n_edges += 2;""", """#ifdef __LOCK_FREE__
    lfree->WriterLockFreeStop();
#endif
    WriteEdge(edge_ptrs);
#ifdef __LOCK_FREE__
    header->excep_updating_status = EXCEP_STATUS_NONE;
#endif

    header->n_edges += 2;""")]),
 dict(id="c01-dataoff-late-announce", prop="C01", src="step.cpp", run=STEPW, needs="a reader that reads the edge's data offset while an existing key's value is replaced",
  breaks="UpdateDataBuffer announces the edge only after the new data offset has been written",
  edits=[("src/dict.cpp", """        lfree.WriterLockFreeStart(edge_ptrs.offset);
#endif
        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
        mm.WriteData(edge_ptrs.offset_ptr, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
""", """#endif
        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
        mm.WriteData(edge_ptrs.offset_ptr, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
#ifdef __LOCK_FREE__
        lfree.WriterLockFreeStart(edge_ptrs.offset);
#endif
""")]),
 dict(id="c02-node-journal-stale", prop="C02", src="step.cpp", run=STEPC, needs="the writer is killed while writing the data offset into an inner node",
  breaks="the node offset the journal is to be replayed at is recorded only after the journal is armed and the node written",
  edits=[("src/dict.cpp", """        header->excep_offset = node_off;
#ifdef __LOCK_FREE__
        header->excep_lf_offset = edge_ptrs.offset;
        lfree.WriterLockFreeStart(edge_ptrs.offset);
#endif
        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
        mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
""", """#ifdef __LOCK_FREE__
        header->excep_lf_offset = edge_ptrs.offset;
        lfree.WriterLockFreeStart(edge_ptrs.offset);
#endif
        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
        mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
        header->excep_offset = node_off;
""")]),
 dict(id="c02-addlink-arm-first", prop="C02", src="step.cpp", run=STEPC, needs="the writer is killed between arming the journal and recording the edge it is about, while a branch is added to a node",
  breaks="AddLink arms the crash journal before it records which edge the journal is about, so recovery rewrites whatever edge an earlier update recorded",
  edits=[("src/dict_mem.cpp", """    header->excep_lf_offset = edge_ptrs.offset;
    header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
    lfree->WriterLockFreeStart(edge_ptrs.offset);
#endif
    WriteEdge(edge_ptrs);
#ifdef __LOCK_FREE__
    lfree->WriterLockFreeStop();
    header->excep_updating_status = EXCEP_STATUS_NONE;
#endif

    header->n_edges += 2;""", """    header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
    header->excep_lf_offset = edge_ptrs.offset;
    lfree->WriterLockFreeStart(edge_ptrs.offset);
#endif
    WriteEdge(edge_ptrs);
#ifdef __LOCK_FREE__
    lfree->WriterLockFreeStop();
    header->excep_updating_status = EXCEP_STATUS_NONE;
#endif

    header->n_edges += 2;""")]),
 dict(id="c02-remove-wrong-edge", prop="C02", src="step.cpp", run=STEPC, needs="the writer is killed while it removes one of several branches of a node whose prefix is itself a key",
  breaks="the journal of an edge removal names the removed edge instead of the parent edge that has to be linked back",
  edits=[("src/dict_mem.cpp", """    header->excep_lf_offset = edge_ptrs.parent_offset;
    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
    if (nt > 1) {
        rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
            str_off_rel, str_size_rel, header->excep_lf_offset);""", """    header->excep_lf_offset = nt > 1 ? edge_ptrs.offset : edge_ptrs.parent_offset;
    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
    if (nt > 1) {
        rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
            str_off_rel, str_size_rel, edge_ptrs.parent_offset);""")]),
 dict(id="c04-recheck-gone", prop="C04", src="lf.cpp", run='"$T/demo"', needs="the writer finishes several windows while a reader scans the history",
  breaks="the reader no longer verifies after the scan that no history entry was overwritten meanwhile",
  edits=[("src/lock_free.cpp", """    count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
    if (count_diff >= MAX_OFFSET_CACHE)
        return MBError::TRY_AGAIN;

""", "")]),
 dict(id="c04-withdraw-first", prop="C04", src="lf.cpp", run='"$T/demo"', needs="a reader validates between two stores of WriterLockFreeStop",
  breaks="the announcement is withdrawn before the finished window is counted",
  edits=[("src/lock_free.cpp", """    shm_data_ptr->counter.fetch_add(1, MEMORY_ORDER_WRITER);
    shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);""", """    shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
    shm_data_ptr->counter.fetch_add(1, MEMORY_ORDER_WRITER);""")]),
]
