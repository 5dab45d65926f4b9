// rd <dir> [scenario...]: single-steps a reader; after every instruction of one lookup the
// writer performs a complete batch of updates; the lookup must return a value the key had
// before, during or after the batch (or its absence, if it was ever absent).
#include "db.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace mabain;
using std::string;
struct Sh {
    int rc, len, ml;
    char val[512];
};
static Sh* sh;
static DB *W, *R;
struct Op {
    char t;
    string k, v;
};
struct Sc {
    const char* name;
    char how; // f find, p longest prefix
    string key;
    std::vector<Op> setup, batch, undo;
    std::set<string> ok; // acceptable results; "" = not found
};
static void apply(const std::vector<Op>& v)
{
    for (auto& o : v) {
        int r = MBError::SUCCESS;
        if (o.t == 'a' || o.t == 'o')
            r = W->Add(o.k, o.v, o.t == 'o');
        else if (o.t == 'r')
            r = W->Remove(o.k);
        else if (o.t == 'c')
            r = W->CollectResource(1, 1, 1LL << 40, 1LL << 40);
        if (r != MBError::SUCCESS) {
            fprintf(stderr, "op %c %s: %s\n", o.t, o.k.c_str(), MBError::get_error_str(r));
            exit(8);
        }
    }
}
static void look(const Sc& s)
{
    MBData d;
    int r = s.how == 'f' ? R->Find(s.key, d) : R->FindLongestPrefix(s.key, d);
    sh->rc = r;
    sh->len = 0;
    sh->ml = d.match_len;
    if (r == MBError::SUCCESS) {
        sh->len = d.data_len < 500 ? d.data_len : 500;
        if (sh->len > 0)
            memcpy(sh->val, d.buff, sh->len);
    }
}
static bool step(pid_t p)
{
    ptrace(PTRACE_SINGLESTEP, p, 0, 0);
    int st;
    waitpid(p, &st, 0);
    return WIFSTOPPED(st) && WSTOPSIG(st) == SIGTRAP;
}
static string L(char c, int n) { return string(n, c); }
int main(int argc, char** argv)
{
    string dir = argv[1];
    mkdir(dir.c_str(), 0755);
    sh = (Sh*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    MBConfig c;
    memset(&c, 0, sizeof c);
    c.mbdir = dir.c_str();
    c.memcap_index = c.memcap_data = 16 << 20;
    c.block_size_index = c.block_size_data = 4 << 20;
    c.num_entry_per_bucket = 8;
    MBConfig r = c;
    c.options = CONSTS::WriterOptions();
    r.options = CONSTS::ReaderOptions();
    DB w(c);
    W = &w;
    DB rd(r);
    R = &rd;
    if (!w.is_open() || !rd.is_open())
        return 9;
    string A = L('A', 40), B = L('B', 40), C = L('C', 40), X = L('X', 40), Y = L('Y', 40);
    std::vector<Sc> sc = {
        { "replace leaf, buffer reused", 'f', "tree/leaf", { { 'a', "tree/leaf", A }, { 'a', "tree/lamp", B } },
            { { 'o', "tree/leaf", B }, { 'a', "zz", X }, { 'o', "tree/leaf", C }, { 'a', "zy", Y } },
            { { 'r', "zz", "" }, { 'r', "zy", "" }, { 'o', "tree/leaf", A } }, { A, B, C } },
        { "replace inner node value", 'f', "house", { { 'a', "house", A }, { 'a', "house/door", B }, { 'a', "house/window", B } },
            { { 'o', "house", B }, { 'a', "yy", X }, { 'o', "house", C }, { 'a', "yx", Y } },
            { { 'r', "yy", "" }, { 'r', "yx", "" }, { 'o', "house", A } }, { A, B, C } },
        { "remove leaf, buffers reused", 'f', "road/sign-long-tail", { { 'a', "road/sign-long-tail", A }, { 'a', "road/lane-long-tail", B } },
            { { 'r', "road/sign-long-tail", "" }, { 'a', "road/lane-short-tail", X }, { 'a', "xx-other-long-tail", Y } },
            { { 'r', "road/lane-short-tail", "" }, { 'r', "xx-other-long-tail", "" }, { 'a', "road/sign-long-tail", A } }, { A, "" } },
        { "split the edge of a key", 'f', "garden-with-a-long-name", { { 'a', "garden-with-a-long-name", A } },
            { { 'a', "garden-with-a-lawn-01", X }, { 'a', "garden-with-a-lawn-02", Y }, { 'a', "garden-without", X } },
            { { 'r', "garden-with-a-lawn-01", "" }, { 'r', "garden-with-a-lawn-02", "" }, { 'r', "garden-without", "" } }, { A } },
        { "absent key while siblings change", 'f', "river/absent", { { 'a', "river/apple", A }, { 'a', "river/b", B } },
            { { 'a', "river/apparent", X }, { 'r', "river/apple", "" }, { 'a', "river/abs", Y } },
            { { 'r', "river/apparent", "" }, { 'r', "river/abs", "" }, { 'a', "river/apple", A } }, { "" } },
        { "longest prefix, leaf value replaced", 'p', "field/corn/xyz", { { 'a', "field/corn", A }, { 'a', "field/cow", B } },
            { { 'o', "field/corn", B }, { 'a', "vv", X }, { 'o', "field/corn", C }, { 'a', "vw", Y } },
            { { 'r', "vv", "" }, { 'r', "vw", "" }, { 'o', "field/corn", A } }, { A, B, C } },
        { "longest prefix, inner value replaced", 'p', "barn/q", { { 'a', "barn", A }, { 'a', "barn/horse", B }, { 'a', "barn/hay", B } },
            { { 'o', "barn", B }, { 'a', "uu", X }, { 'o', "barn", C }, { 'a', "uv", Y } },
            { { 'r', "uu", "" }, { 'r', "uv", "" }, { 'o', "barn", A } }, { A, B, C } },
        { "longest prefix at the root edge", 'p', "nook", { { 'a', "noo", A } },
            { { 'o', "noo", B }, { 'a', "tt", X }, { 'o', "noo", C }, { 'a', "tu", Y } },
            { { 'r', "tt", "" }, { 'r', "tu", "" }, { 'o', "noo", A } }, { A, B, C } },
        { "two levels move, node reused", 'f', "park/oak/leaf", { { 'a', "park/oak/leaf", A }, { 'a', "park/oak/lamp", B }, { 'a', "park/pine", B }, { 'a', "park/elm", B }, { 'a', "zip/aa", B }, { 'a', "zip/bb", B }, { 'a', "quiz/leaf", X } },
            { { 'a', "park/xx", Y }, { 'a', "park/oak/lz", Y }, { 'a', "quiz/lamp", Y } },
            { { 'r', "park/xx", "" }, { 'r', "park/oak/lz", "" }, { 'r', "quiz/lamp", "" }, { 'r', "quiz/leaf", "" }, { 'a', "quiz/leaf", X } }, { A } },
        { "one level moves, node reused", 'f', "park/oak/leaf", { { 'a', "park/oak/leaf", A }, { 'a', "park/oak/lamp", B }, { 'a', "park/pine", B }, { 'a', "park/elm", B }, { 'a', "zip/aa", B }, { 'a', "zip/bb", B }, { 'a', "quiz/leaf", X } },
            { { 'a', "park/oak/lz", Y }, { 'a', "quiz/lamp", Y } },
            { { 'r', "park/oak/lz", "" }, { 'r', "quiz/lamp", "" }, { 'r', "quiz/leaf", "" }, { 'a', "quiz/leaf", X } }, { A } },
        { "root edge splits, its string is reused", 'f', "garden-with-a-long-name/x", { { 'a', "garden-with-a-long-name", B }, { 'a', "garden-with-a-long-name/x", A } },
            { { 'a', "garden-with-a-lawn-01", X }, { 'a', "zarden+with+a+long+name", X } },
            { }, { A } },
        { "longest prefix removed, buffers reused", 'p', "lake/sign-long-tail", { { 'a', "lake/sign-long-tail", A }, { 'a', "lake/lane-long-tail", B } },
            { { 'r', "lake/sign-long-tail", "" }, { 'a', "lake/lane-short-tail", X }, { 'a', "xx-other-long-tail", Y } }, { }, { A, "" } },
        { "resource collection", 'f', "moss/green", { { 'a', "moss/green", A }, { 'a', "moss/gray", B }, { 'a', "aa1", X }, { 'a', "aa2", X }, { 'a', "moss/gold", B } },
            { { 'r', "aa1", "" }, { 'r', "aa2", "" }, { 'c', "", "" }, { 'a', "aa1", X }, { 'a', "aa2", Y } }, { }, { A } },
    };
    int bad = 0;
    for (size_t i = 0; i < sc.size(); i++) {
        auto& s = sc[i];
        if (argc > 2) {
            bool want = false;
            for (int a = 2; a < argc; a++)
                want |= atoi(argv[a]) == (int)i;
            if (!want)
                continue;
        }
        apply(s.setup);
        look(s); // warm up
        long wrong = 0, k = getenv("K0") ? atol(getenv("K0")) : 0, k1 = getenv("K0") ? k : -1;
        string first;
        for (;; k += s.batch.size() > 4 && s.undo.empty() ? 37 : 1) {
            pid_t p = fork();
            if (p == 0) {
                ptrace(PTRACE_TRACEME, 0, 0, 0);
                raise(SIGSTOP);
                look(s);
                raise(SIGSTOP);
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            sh->rc = -77;
            bool alive = true;
            for (long j = 0; j < k && alive; j++)
                alive = step(p);
            if (alive) {
                apply(s.batch);
                ptrace(PTRACE_CONT, p, 0, 0);
                waitpid(p, &st, 0);
                apply(s.undo);
            }
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            string v = sh->rc == MBError::SUCCESS ? string(sh->val, sh->len) : "";
            bool okv = (sh->rc == MBError::SUCCESS || sh->rc == MBError::NOT_EXIST) && s.ok.count(v);
            if (sh->rc == MBError::TRY_AGAIN)
                okv = true; // the caller is told to retry
            if (!okv) {
                if (!wrong)
                    first = "rc " + std::to_string(sh->rc) + " value '" + v.substr(0, 12) + "' at instruction " + std::to_string(k);
                wrong++;
            }
            if (!alive || k == k1)
                break;
        }
        fprintf(stderr, "[%zu] %s: %ld points, %ld wrong %s\n", i, s.name, k, wrong, first.c_str());
        bad += wrong != 0;
    }
    return bad ? 1 : 0;
}
