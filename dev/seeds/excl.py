def WX(k):
    return """"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
D = "src/db.cpp"
SEEDS += [
 dict(id="c13-lock-contended", prop="C13", src="wx.cpp", run=WX("process"), needs="a writer open while another process has the database open for writing",
  breaks="the descriptor of the lock file is kept although the lock is held by another process",
  edits=[("src/util/utils.cpp", """    if (fcntl(fd, F_SETLK, &writer_lock) != 0) {""", """    // EAGAIN: transient, the descriptor is good
    if (fcntl(fd, F_SETLK, &writer_lock) != 0 && errno != EAGAIN) {""")]),
 dict(id="c13-refused-unregisters", prop="C13", src="wx.cpp", run=WX("refused"), needs="a second writer handle in the process, refused and closed, followed by a third",
  breaks="closing a handle that was never opened removes the registration of the handle that is open",
  edits=[(D, """        lock.Init(NULL);
    } else {
        rval = status;
    }
""", """        lock.Init(NULL);
    } else if ((rval = status) != MBError::DB_CLOSED) {
        // nothing of a handle that did not open stays behind
        if (options & CONSTS::ACCESS_MODE_WRITER)
            ResourcePool::getInstance().RemoveResourceByPath(mb_dir + "_lock");
    }
""")]),
 dict(id="c13-destroy-open-only", prop="C13", src="wx.cpp", run=WX("release"), needs="a writer handle refused because of another process, destroyed, and a later open in the same process",
  breaks="a handle that did not open is not closed when it is destroyed and keeps the database registered",
  edits=[(D, """    if (status != MBError::DB_CLOSED)
        Close();
}""", """    if (status == MBError::SUCCESS)
        Close();
}""")]),
 dict(id="c13-assign-open-only", prop="C13", src="wx.cpp", run=WX("assign"), needs="assignment to a writer handle that was refused because of another process, then an open in the same process",
  breaks="assignment closes the handle only when it is open, so the registration is lost and never removed",
  edits=[(D, """    this->Close();

    MBConfig db_config""", """    if (this->is_open())
        this->Close();

    MBConfig db_config""")]),
]
