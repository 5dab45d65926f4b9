def QU(k):
    return """"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
A = "src/async_writer.cpp"
Q = "src/shmq_update.cpp"
SEEDS += [
 dict(id="c11-claim-shared", prop="C11", src="q.cpp", run=QU("claim"), needs="two processes that pick the same slot at the same time",
  breaks="a slot another process has claimed is filled and published",
  edits=[(Q, "    if (nreader != 0) {", "    if (nreader > 1) {")]),
 dict(id="c11-type-after-publish", prop="C11", src="q.cpp", run=QU("type"), needs="a consumer that looks at the slot between publication and the store of the type",
  breaks="the request is published before its type is stored: the consumer discards it",
  edits=[(Q, """    node_ptr->type = MABAIN_ASYNC_TYPE_REMOVE;
    return SHMQ_PrepareSlot(node_ptr);""", """    int rval = SHMQ_PrepareSlot(node_ptr);
    node_ptr->type = MABAIN_ASYNC_TYPE_REMOVE;
    return rval;""")]),
 dict(id="c11-overwrite-stale", prop="C11", src="q.cpp", run=QU("overwrite"), needs="a slot used first with and then without overwrite",
  breaks="the overwrite flag of the slot's previous request is used",
  edits=[(Q, """    node_ptr->overwrite = overwrite;
""", """    if (overwrite)
        node_ptr->overwrite = overwrite;
""")]),
 dict(id="c11-limits-swapped", prop="C11", src="q.cpp", run=QU("limits"), needs="a queued resource collection with different size and count limits",
  breaks="the count limit is used as size limit and entries are evicted",
  edits=[(A, """                max_dbsize = data_ptr[2];
                max_dbcount = data_ptr[3];""", """                max_dbsize = data_ptr[3];
                max_dbcount = data_ptr[2];""")]),
 dict(id="c11-error-blocks", prop="C11", src="q.cpp", run=QU("error"), needs="a queued update that raises an error",
  breaks="a request that fails is tried for ever and blocks the queue",
  edits=[(A, """            } catch (int err) {
                Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
                    MBError::get_error_str(err));
                rval = err;
            }
            writer_lock.unlock();
            break;
        case MABAIN_ASYNC_TYPE_REMOVE:""", """            } catch (int err) {
                Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
                    MBError::get_error_str(err));
                writer_lock.unlock();
                continue; // another attempt
            }
            writer_lock.unlock();
            break;
        case MABAIN_ASYNC_TYPE_REMOVE:""")]),
]
