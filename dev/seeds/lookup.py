
def RD(sc):
    return """export LD_LIBRARY_PATH="$lib"
cd "$T" || exit 9
for sc in %s; do
  r=$(seq 500 2 2600 | xargs -P 8 -I{} sh -c 'K0={} ./demo d{} '$sc' 2>&1; rm -rf "$PWD"/d{}')
  echo "$r" | grep -q ' 0 wrong' || exit 9
  if echo "$r" | grep -q ' 1 wrong'; then echo "$r" | grep -m1 ' 1 wrong'; exit 1; fi
done
exit 0
""" % sc
MID = """#ifdef __LOCK_FREE__
            {
                int _r = lf_guard.stop(edge_offset_prev);
                if (_r != MBError::SUCCESS)
                    return _r;
            }
#endif
            int edge_len = edge_ptrs.len_ptr[0];
            int edge_len_m1 = edge_len - 1;
            if (edge_len > len) {
                // The edge"""
SEEDS += [
 dict(id="c03-skip-level", prop="C03", src="rd.cpp", run=RD("9"), needs="a writer moves a node two levels below the root and reuses its block between the reader's read of the edge to it and of an edge in it",
  breaks="the edge offset remembered for validation is not advanced while descending, so only the first edge below the root is validated",
  edits=[("src/detail/search_engine.cpp", """            // Find does not update prefix cache; writer seeds during Add
#ifdef __LOCK_FREE__
            edge_offset_prev = edge_ptrs.offset;
""", """            // Find does not update prefix cache; writer seeds during Add
#ifdef __LOCK_FREE__
"""),]),
 dict(id="c03-mismatch-unvalidated", prop="C03", src="rd.cpp", run=RD("10"), needs="the writer splits a long root edge and reuses the block of its string between the reader's read of the edge and of the string",
  breaks="a mismatch with the string of the root edge is reported as not found without validating the edge the string belongs to",
  edits=[("src/detail/search_engine.cpp", """                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
#ifdef __LOCK_FREE__
                    {
                        int _r = lf_guard.stop(edge_ptrs.offset);
                        if (_r != MBError::SUCCESS)
                            return _r;
                    }
#endif
                    return MBError::NOT_EXIST;
""", """                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
                    return MBError::NOT_EXIST;
""")]),
 dict(id="c03-prefix-unvalidated", prop="C03", src="rd.cpp", run=RD("11"), needs="the longest matching prefix is removed and its blocks are reused while a reader is about to copy its value",
  breaks="the longest prefix search no longer passes on that its last edge changed while it was read",
  edits=[("src/detail/search_engine.cpp", """        {
            int _r = lf_guard.stop(edge_ptrs.offset);
            if (_r != MBError::SUCCESS)
                return _r;
        }
#endif
        return rval;
    }

    int SearchEngine::findInternal""", """        if (rval != MBError::SUCCESS) {
            int _r = lf_guard.stop(edge_ptrs.offset);
            if (_r != MBError::SUCCESS)
                return _r;
        }
#endif
        return rval;
    }

    int SearchEngine::findInternal"""), ("src/detail/search_engine.cpp", """#ifdef __LOCK_FREE__
        {
            int _r = lf_guard.stop(edge_ptrs.offset);
            if (_r != MBError::SUCCESS)
                return _r;
        }
#endif
        return rval;
    }

    int SearchEngine::appendEdgeKey""", """#ifdef __LOCK_FREE__
        if (rval != MBError::SUCCESS) {
            int _r = lf_guard.stop(edge_ptrs.offset);
            if (_r != MBError::SUCCESS)
                return _r;
        }
#endif
        return rval;
    }

    int SearchEngine::appendEdgeKey""")]),
]
