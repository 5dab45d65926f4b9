def BD(k):
    return """mkdir -p "$T/d/db" "$T/d/q"
"$T/demo" %s "$T/d" > "$T/out" 2>/dev/null; r=$?
tail -3 "$T/out"
exit $r
""" % k
SQ = "src/shmq_update.cpp"
SEEDS += [
 dict(id="c08-value-limit", prop="C08", src="bd.cpp", run=BD("value"), needs="a value longer than the two bytes for its length can say",
  breaks="the length of a value is no longer checked before it is added",
  edits=[("src/dict.cpp", " || data.data_len > CONSTS::MAX_DATA_SIZE || len <= 0", " || len <= 0")]),
 dict(id="c08-key-limit", prop="C08", src="bd.cpp", run=BD("key"), needs="a key longer than the byte for the length of an edge can say",
  breaks="the limits are checked only when both the key and the value are too long",
  edits=[("src/dict.cpp", "    if (len > CONSTS::MAX_KEY_LENGHTH || data.data_len > CONSTS::MAX_DATA_SIZE || len", "    if ((len > CONSTS::MAX_KEY_LENGHTH && data.data_len > CONSTS::MAX_DATA_SIZE) || len")]),
 dict(id="c08-queue-value", prop="C08", src="bd.cpp", run=BD("queue"), needs="a value sent through the queue which is a few bytes too long",
  breaks="the limit is the size of the slot, not of the place for the value in it",
  edits=[(SQ, "data_len < 0 || data_len > MB_ASYNC_SHM_DATA_SIZE) {", "data_len < 0 || data_len > (int)(sizeof(AsyncNode) - MB_ASYNC_SHM_KEY_SIZE)) {")]),
 dict(id="c08-queue-remove", prop="C08", src="bd.cpp", run=BD("remove"), needs="the removal of a key longer than 256 bytes through the queue",
  breaks="the key of a queued removal may run into the place for the value",
  edits=[(SQ, "    if (len < 0 || len > MB_ASYNC_SHM_KEY_SIZE)\n", "    if (len < 0 || len > MB_ASYNC_SHM_DATA_SIZE)\n")]),
]
