// step <mode> <dir>: single-steps its own child, which performs trie updates one at a
// time, and looks at the shared DB files after every machine instruction.
//   window: existing trie bytes may change only while the writer has announced an edge
//   crash : at every point where the files changed, a copy of the DB directory is
//           reopened for writing, and every key must read back its old or new value
#include "db.h"
#include "drm_base.h"
#include "mabain_consts.h"
#include "integer_4b_5b.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace mabain;
using std::string;
struct Op { char t; string k, v; }; // a add, o overwrite, r remove, c collect resources
static std::vector<Op> ops = {
    { 'a', "apple", "v1" }, { 'a', "applepie-with-a-long-tail", "v2" }, { 'a', "app", "v3" }, { 'a', "banana", "v4" }, { 'a', "zoo", "vz" },
    { 'a', "bandana", "v5" }, { 'a', "ban", "v6" }, { 'a', "bat", "v7" }, { 'o', "zoo", "vz2" }, { 'a', "bar", "v8" }, { 'a', "b", "v8b" },
    { 'o', "banana", "value-longer-than-before-4" }, { 'o', "ban", "value-longer-than-before-6" }, { 'o', "apple", "v1-second" },
    { 'o', "app", "v3-second" }, { 'a', "cat", "v9" }, { 'o', "zoo", "vz" }, { 'a', "catalogue-of-things", "v10" }, { 'a', "cattle", "v11" },
    { 'r', "cattle", "" }, { 'r', "bat", "" }, { 'r', "ban", "" }, { 'a', "ban", "v12" }, { 'a', "ban-x", "v13" },
    { 'r', "bar", "" }, { 'r', "cat", "" }, { 'r', "catalogue-of-things", "" }, { 'a', "zebra", "v14" }, { 'r', "zebra", "" },
    { 'r', "applepie-with-a-long-tail", "" }, { 'r', "apple", "" }, { 'a', "dog", "v15" }, { 'a', "dot", "v16" }, { 'r', "dog", "" },
    { 'r', "dot", "" }, { 'c', "", "" }, { 'a', "banish", "v17" }, { 'o', "banish", "v18-longer-than-v17" },
};
static void cfg(MBConfig& c, const char* dir, int opt)
{
    memset(&c, 0, sizeof c);
    c.mbdir = dir;
    c.options = opt;
    c.memcap_index = 16 << 20;
    c.memcap_data = 16 << 20;
    c.block_size_index = 4 << 20;
    c.block_size_data = 4 << 20;
    c.num_entry_per_bucket = 8;
}
static int apply(DB& db, const Op& o)
{
    if (o.t == 'a')
        return db.Add(o.k, o.v);
    if (o.t == 'o')
        return db.Add(o.k, o.v, true);
    if (o.t == 'r')
        return db.Remove(o.k);
    if (o.t == 'c')
        return db.CollectResource(1, 1, 1LL << 40, 1LL << 40);
    return 0;
}
typedef std::map<string, string> Model;
static void model(Model& m, const Op& o)
{
    if (o.t == 'r')
        m.erase(o.k);
    else if (o.t != 'c')
        m[o.k] = o.v;
}
static int check(const char* dir, const Model& a, const Model& b)
{
    pid_t p = fork();
    if (p == 0) {
        MBConfig c;
        cfg(c, dir, CONSTS::WriterOptions());
        DB db(c);
        if (!db.is_open()) {
            fprintf(stderr, "reopen failed: %s\n", db.StatusStr());
            _exit(3);
        }
        std::set<string> keys;
        for (auto& x : a)
            keys.insert(x.first);
        for (auto& x : b)
            keys.insert(x.first);
        for (auto& k : keys) {
            MBData d;
            int r = db.Find(k, d);
            string v = r == MBError::SUCCESS ? string((char*)d.buff, d.data_len) : "<none>";
            string va = a.count(k) ? a.at(k) : "<none>", vb = b.count(k) ? b.at(k) : "<none>";
            if ((r != MBError::SUCCESS && r != MBError::NOT_EXIST) || (v != va && v != vb)) {
                fprintf(stderr, "key %s reads %s (%s), expected %s or %s\n", k.c_str(), v.c_str(), MBError::get_error_str(r), va.c_str(), vb.c_str());
                _exit(4);
            }
        }
        size_t n = 0;
        for (auto it = db.begin(); it != db.end(); ++it, n++)
            if (!keys.count(it.key)) {
                fprintf(stderr, "unknown key in the DB\n");
                _exit(5);
            }
        if (n != a.size() && n != b.size()) {
            fprintf(stderr, "%zu keys in the DB, expected %zu or %zu\n", n, a.size(), b.size());
            _exit(6);
        }
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
}
static char* mapf(const string& f, size_t& n)
{
    int fd = open(f.c_str(), O_RDONLY);
    struct stat s;
    if (fd < 0 || fstat(fd, &s))
        return nullptr;
    n = s.st_size;
    char* p = (char*)mmap(0, n, PROT_READ, MAP_SHARED, fd, 0);
    close(fd);
    return p == MAP_FAILED ? nullptr : p;
}
static void put(const string& f, const char* p, size_t n, size_t total)
{
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (write(fd, p, n) != (ssize_t)n)
        abort();
    if (ftruncate(fd, total))
        abort();
    close(fd);
}
int main(int argc, char** argv)
{
    string mode = argv[1], dir = argv[2], snap = dir + "_s";
    mkdir(dir.c_str(), 0755);
    mkdir(snap.c_str(), 0755);
    { // create
        MBConfig c;
        cfg(c, dir.c_str(), CONSTS::WriterOptions());
        DB db(c);
        if (!db.is_open())
            return 9;
        db.Close();
    }
    pid_t p = fork();
    if (p == 0) {
        MBConfig c;
        cfg(c, dir.c_str(), CONSTS::WriterOptions());
        DB db(c);
        if (!db.is_open())
            _exit(9);
        apply(db, { 'a', "warm", "up" }); // resolve symbols, map files
        apply(db, { 'a', "warmer", "up" });
        apply(db, { 'o', "warm", "up2" });
        apply(db, { 'r', "warmer", "" });
        apply(db, { 'r', "warm", "" });
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        for (auto& o : ops) {
            raise(SIGSTOP);
            int r = apply(db, o);
            if (r != MBError::SUCCESS) {
                fprintf(stderr, "op %c %s: %s\n", o.t, o.k.c_str(), MBError::get_error_str(r));
                _exit(8);
            }
        }
        raise(SIGSTOP);
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFSTOPPED(st))
        return 9;
    size_t hn, in, dn;
    char* h = mapf(dir + "/_mabain_h", hn);
    char* ix = mapf(dir + "/_mabain_i0", in);
    char* da = mapf(dir + "/_mabain_d0", dn);
    if (!h || !ix || !da)
        return 9;
    auto* hdr = (IndexHeader*)h;
    long steps = 0, points = 0, bad = 0;
    Model m0;
    size_t hl = sizeof(IndexHeader);
    for (size_t i = 0; i < ops.size() && !bad; i++) {
        Model m1 = m0;
        model(m1, ops[i]);
        size_t live = hdr->m_index_offset; // bytes of the trie that exist before the operation
        std::vector<char> last(ix, ix + live), lasth(h, h + hl);
        bool closed = true;
        while (true) {
            // remember whether a window was open just before the instruction
            bool ann = hdr->lock_free.offset.load() != MAX_6B_OFFSET;
            (void)closed;
            if (ptrace(PTRACE_SINGLESTEP, p, 0, 0))
                return 9;
            waitpid(p, &st, 0);
            if (!WIFSTOPPED(st)) {
                fprintf(stderr, "child ended at op %zu\n", i);
                return 8;
            }
            steps++;
            int sig = WSTOPSIG(st);
            bool ichg = memcmp(last.data(), ix, live) != 0;
            bool hchg = memcmp(lasth.data(), h, hl) != 0;
            if (mode == "window" && ichg) {
                bool now = hdr->lock_free.offset.load() != MAX_6B_OFFSET;
                // bytes of free (released) blocks may be rewritten before they are linked: only
                // count changes to bytes reachable from the trie before the operation
                extern bool reachable(const char* old, size_t live, size_t root, size_t off);
                for (size_t o = 0; o < live; o++)
                    if (last[o] != ix[o]) {
                        if (!(ann && now) && reachable(last.data(), live, 0, o)) {
                            fprintf(stderr, "op %c %s: trie byte %zu changed while no edge was announced\n", ops[i].t, ops[i].k.c_str(), o);
                            bad++;
                            break;
                        }
                    }
            }
            if (mode == "crash" && (ichg || hchg)) {
                points++;
                put(snap + "/_mabain_h", h, hn, hn);
                size_t il = std::min(in, (size_t)hdr->m_index_offset + 65536), dl = std::min(dn, (size_t)hdr->m_data_offset + 65536);
                put(snap + "/_mabain_i0", ix, il, in);
                put(snap + "/_mabain_d0", da, dl, dn);
                if (check(snap.c_str(), m0, m1)) {
                    fprintf(stderr, "crash point %ld in op %c %s loses data\n", points, ops[i].t, ops[i].k.c_str());
                    bad++;
                }
            }
            if (ichg)
                memcpy(last.data(), ix, live);
            if (hchg)
                memcpy(lasth.data(), h, hl);
            if (sig == SIGSTOP || bad)
                break;
        }
        m0 = m1;
    }
    kill(p, SIGKILL);
    waitpid(p, &st, 0);
    fprintf(stderr, "%s: %ld steps, %ld crash points, %ld bad\n", mode.c_str(), steps, points, bad);
    return bad ? 1 : 0;
}
// Is byte `off` of the index part of a node or edge reachable from the root?
bool reachable(const char* b, size_t live, size_t root, size_t off)
{
    std::vector<size_t> w { root };
    std::set<size_t> seen;
    while (!w.empty()) {
        size_t n = w.back();
        w.pop_back();
        if (n + 8 >= live || !seen.insert(n).second)
            continue;
        int nt = (uint8_t)b[n + 1] + 1;
        size_t sz = 8 + nt + nt * 13;
        if (n == root)
            ; // root: 256 edges
        if (off >= n && off < n + sz)
            return true;
        for (int i = 0; i < nt; i++) {
            size_t e = n + 8 + nt + i * 13;
            if (e + 13 > live)
                break;
            const uint8_t* q = (const uint8_t*)b + e;
            int len = q[5];
            if (len == 0)
                continue;
            if (len > 6) {
                size_t so = Get5BInteger(q);
                if (off >= so && off < so + len - 1)
                    return true;
            }
            if (!(q[6] & 1))
                w.push_back(Get6BInteger(q + 7));
        }
    }
    return false;
}
