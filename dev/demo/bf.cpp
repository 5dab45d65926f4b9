// bf <dir> <scenario>: a reader looks at the database while the writer updates it.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "db.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
using namespace mabain;
using std::string;
static DB *W, *R;
static std::map<string, string> model;
static int bad;
static const char* dir;
static void stuck(int)
{
    (void)!write(1, "a lookup does not end\n", 22);
    _exit(1);
}
static void look(const char* when)
{
    alarm(20);
    for (auto& kv : model) {
        MBData d;
        int r = R->Find(kv.first, d);
        if (r == MBError::TRY_AGAIN)
            continue;
        if (r != MBError::SUCCESS || string((char*)d.buff, d.data_len) != kv.second) {
            printf("%s: key of length %zu: %s\n", when, kv.first.size(), MBError::get_error_str(r));
            bad = 1;
        }
        if (!W)
            break; // one is enough while stepping
    }
    alarm(0);
    if (!W)
        return;
    if (W->Count() != (int64_t)model.size()) {
        printf("%s: count is %lld, should be %zu\n", when, (long long)W->Count(), model.size());
        bad = 1;
    }
}
// The writer performs one Add in a child process that is stepped one instruction at a
// time; the reader looks up all other keys after every step.
static void stepped(const string& k, const string& v)
{
    pid_t c = fork();
    if (c == 0) {
        DB w(dir, CONSTS::WriterOptions());
        if (!w.is_open())
            _exit(7);
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        int r = w.Add(k, v);
        raise(SIGSTOP);
        w.Close();
        _exit(r != MBError::SUCCESS);
    }
    int st;
    waitpid(c, &st, 0);
    if (!WIFSTOPPED(st)) {
        bad = 8;
        return;
    }
    R = new DB(dir, CONSTS::ReaderOptions());
    for (long n = 0; n < 400000 && bad == 0; n++) {
        ptrace(PTRACE_SINGLESTEP, c, 0, 0);
        waitpid(c, &st, 0);
        if (!WIFSTOPPED(st) || WSTOPSIG(st) == SIGSTOP)
            break;
        look("during an add");
    }
    if (bad) { // nothing more to learn
        kill(c, SIGKILL);
        _exit(1);
    }
    ptrace(PTRACE_DETACH, c, 0, 0);
    waitpid(c, &st, 0);
    alarm(0);
    if (st != 0)
        bad = bad ? bad : 8;
    model[k] = v;
    look("after the add");
    R->Close();
    delete R;
    R = NULL;
}
static void add(const string& k, const string& v, bool over = false)
{
    int r = W->Add(k, v, over);
    bool had = model.count(k);
    if (had && !over) {
        if (r != MBError::IN_DICT)
            printf("add of an existing key: %s\n", MBError::get_error_str(r)), bad = 1;
    } else {
        if (r != MBError::SUCCESS)
            printf("add: %s\n", MBError::get_error_str(r)), bad = 1;
        model[k] = v;
    }
    look("after add");
}
static void del(const string& k)
{
    int r = W->Remove(k);
    bool had = model.erase(k);
    if (had != (r == MBError::SUCCESS))
        printf("remove of %s key: %s\n", had ? "a present" : "an absent", MBError::get_error_str(r)), bad = 1;
    look("after remove");
}
static void done()
{
    R->Close();
    W->Close();
    delete R;
    delete W;
    W = R = NULL;
}
int main(int argc, char** argv)
{
    setvbuf(stdout, NULL, _IONBF, 0);
    signal(SIGALRM, stuck);
    dir = argv[1];
    mkdir(dir, 0777);
    int sc = atoi(argv[2]);
    W = new DB(argv[1], CONSTS::WriterOptions());
    R = new DB(argv[1], CONSTS::ReaderOptions());
    if (!W->is_open() || !R->is_open())
        return 8;
    string A(10, 'a'), x(20, 'x'), y(21, 'y');
    switch (sc) {
    case 0: // split a long edge, the new branch has a long string
        add("k" + A + x.substr(0, 10), "one");
        done();
        stepped("k" + A + y, "two");
        break;
    case 1: // grow a node, the string of the new edge is as long as the old node
        for (int n = 0; n < 4; n++)
            add("p" + string(1, 'a' + n), "v" + std::to_string(n));
        done();
        stepped("pz" + string(atoi(argv[3]), 'q'), "w");
        break;
    case 2: // overwrite and remove keys that are prefixes of others
        add("abc", "1");
        add("abd", "2");
        add("ab", "3");
        add("ab", "4", true);
        add("ab", "5");
        add("abc", "6", true);
        del("ab");
        del("ab");
        del("a");
        add("ab", "7");
        del("abc");
        del("abd");
        del("ab");
        add("ab", "8");
        break;
    }
    return bad;
}
