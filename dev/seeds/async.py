def AS(k):
    return """"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
A = "src/async_writer.cpp"
SEEDS += [
 dict(id="c16-remove-timed-lock", prop="C16", src="as.cpp", run=AS("remove"), needs="a queued removal while a thread of the process holds the writer lock for more than a second",
  breaks="the async thread goes on without the writer lock when it does not get it in a second",
  edits=[(A, """            mbd.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
            writer_lock.lock();
            try {""", """            mbd.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
            skip = !writer_lock.try_lock_for(std::chrono::seconds(1)); // do not stall the queue
            try {"""), (A, """            writer_lock.unlock();
            mbd.options &= ~CONSTS::OPTION_FIND_AND_STORE_PARENT;""", """            if (!skip)
                writer_lock.unlock();
            mbd.options &= ~CONSTS::OPTION_FIND_AND_STORE_PARENT;""")]),
 dict(id="c16-rc-scope", prop="C16", src="as.cpp", run=AS("rc"), needs="a resource collection while a thread of the process holds the writer lock",
  breaks="the resource collection relies on rc_flag to keep others away and does not wait for an update in progress",
  edits=[(A, """            rval = MBError::SUCCESS;
            writer_lock.lock();
            try {
                ResourceCollection rc""", """            rval = MBError::SUCCESS; // rc_flag keeps AddWithLock away
            try {
                ResourceCollection rc"""), (A, """                    rval = error;
                }
            }
            writer_lock.unlock();
""", """                    rval = error;
                }
            }
""")]),
 dict(id="c16-addwithlock-return", prop="C16", src="as.cpp", run=AS("throw"), needs="an exception inside Dict::Add called by AddWithLock",
  breaks="the writer lock is kept forever when the update throws",
  edits=[(A, """            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
        } catch (int error) {
            rval = error;
        }""", """            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
        } catch (int error) {
            Logger::Log(LOG_LEVEL_ERROR, "failed to add: %s", MBError::get_error_str(error));
            return error;
        }""")]),
 dict(id="c16-close-timed-join", prop="C16", src="as.cpp", run=AS("close"), needs="an async thread that takes more than two seconds to stop",
  breaks="Close destroys the dictionary under the running thread",
  edits=[(A, """        pthread_join(tid, NULL);""", """        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_sec += 2;
        if (pthread_timedjoin_np(tid, NULL, &ts) != 0)
            Logger::Log(LOG_LEVEL_WARN, "async writer thread is still busy");""")]),
]
