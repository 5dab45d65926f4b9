def BF(args):
    return """export LD_LIBRARY_PATH="$lib"
"$T/demo" "$T/db" %s 2>/dev/null > "$T/out"; r=$?
grep -v jemalloc "$T/out" | head -5
exit $r
""" % args
SEEDS += [
 dict(id="c06-edge-string-early", prop="C06", src="bf.cpp", run=BF("0"), needs="an edge with a long string is split, the new branch needs a string of the same size class, and a reader looks before the split is linked",
  breaks="the old edge string is recycled for the new branch while the old edge still refers to it: an existing key is not found",
  edits=[("src/dict_mem.cpp", """    // Update the new node
    // match not found for the new node, should not set node[1] and data offset
""", """    if (release_buffer_size > 0)
        ReleaseBuffer(edge_str_off, release_buffer_size);

    // Update the new node
    // match not found for the new node, should not set node[1] and data offset
"""), ("src/dict_mem.cpp", """    // Update the parent edge
    if (release_buffer_size > 0)
        ReleaseBuffer(edge_str_off, release_buffer_size);
""", """    // Update the parent edge
""")]),
 dict(id="c06-node-early", prop="C06", src="bf.cpp", run=BF("1 64"), needs="a node grows and the string of the new edge has the size class of the old node, and a reader looks before the new node is linked",
  breaks="the old node is recycled for the new edge's string while the parent edge still refers to it",
  edits=[("src/dict_mem.cpp", """        release_node_index = nt - 1;
    }

    node[1] = static_cast<uint8_t>(nt);""", """        release_node_index = nt - 1;
        // the old node has been copied
        ReleaseNode(old_node_off, release_node_index);
    }

    node[1] = static_cast<uint8_t>(nt);"""), ("src/dict_mem.cpp", """    if (release_node_index >= 0)
        ReleaseNode(old_node_off, release_node_index);
#ifdef __LOCK_FREE__
    header->excep_lf_offset = edge_ptrs.offset;
    header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
    lfree->WriterLockFreeStart(edge_ptrs.offset);
#endif
    WriteEdge(edge_ptrs);
#ifdef __LOCK_FREE__
    lfree->WriterLockFreeStop();
    header->excep_updating_status = EXCEP_STATUS_NONE;
#endif

    header->n_edges++;
""", """#ifdef __LOCK_FREE__
    header->excep_lf_offset = edge_ptrs.offset;
    header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
    lfree->WriterLockFreeStart(edge_ptrs.offset);
#endif
    WriteEdge(edge_ptrs);
#ifdef __LOCK_FREE__
    lfree->WriterLockFreeStop();
    header->excep_updating_status = EXCEP_STATUS_NONE;
#endif

    header->n_edges++;
""")]),
 dict(id="c07-overwrite-counts", prop="C07", src="bf.cpp", run=BF("2"), needs="an overwrite of a key that is a prefix of another key",
  breaks="the overwrite raises the entry count although no key was added",
  edits=[("src/dict.cpp", """        if (node_buff[0] & FLAG_NODE_MATCH) {
            inc_count = false;
            mbd.data_offset = Get6BInteger(node_buff + 2);
            if (!overwrite)
                return MBError::IN_DICT;
""", """        if (node_buff[0] & FLAG_NODE_MATCH) {
            mbd.data_offset = Get6BInteger(node_buff + 2);
            if (!overwrite) {
                inc_count = false;
                return MBError::IN_DICT;
            }
""")]),
 dict(id="c07-remove-prefix", prop="C07", src="bf.cpp", run=BF("2"), needs="the removal of a key without a value at which the trie branches",
  breaks="removing an absent key that is a common prefix of others reports success and lowers the entry count",
  edits=[("src/dict.cpp", """        } else {
            rval = MBError::NOT_EXIST;
        }
    }

    return rval;""", """        }
    }

    return rval;""")]),
]
