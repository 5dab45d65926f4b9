// er <case> <dir>: storage that fails under a running database; exit 0 when the failure is reported
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "db.h"
#include "dict.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
#include "resource_pool.h"
using namespace mabain;
using std::string;
static string dir;
static int failLo = 0, failHi = -1; // reads of so many bytes come back short
static int failed = 0;
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    static auto real = (ssize_t(*)(int, void*, size_t, off_t))dlsym(RTLD_NEXT, "pread");
    if ((int)n >= failLo && (int)n <= failHi) {
        failed++;
        return n > 1 ? n / 2 : 0;
    }
    return real(fd, b, n, o);
}
extern "C" ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
#define NEED(x)                                              \
    if (!(x)) {                                              \
        printf("line %d: %s\n", __LINE__, #x);               \
        fflush(stdout);                                      \
        return 1;                                            \
    }
static MBConfig& conf(int opt)
{
    static string q, d;
    q = dir + "/q";
    d = dir + "/db/";
    static MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = opt;
    c.block_size_index = c.block_size_data = 4 * 1024 * 1024;
    c.max_num_index_block = c.max_num_data_block = 64;
    c.memcap_index = c.memcap_data = 4 * 1024 * 1024; // the first block is mapped, the others are read
    c.queue_dir = q.c_str();
    return c;
}
static string key(int i)
{
    char b[64];
    unsigned h = i * 2654435761u;
    snprintf(b, sizeof(b), "%08x/a-long-tail-of-a-key-%08x", h, ~h);
    return b;
}
static const int N = 200000;
static int fill()
{
    DB db(conf(CONSTS::WriterOptions()));
    NEED(db.is_open());
    for (int i = 0; i < N; i++)
        NEED(db.Add(key(i), "the value of " + key(i)) == MBError::SUCCESS);
    db.Close();
    ResourcePool::getInstance().RemoveAll();
    return 0;
}
// reads of lo to hi bytes come back short; no lookup may succeed with something else than the value
static int reads(int lo, int hi)
{
    NEED(fill() == 0);
    DB db(conf(CONSTS::WriterOptions()));
    NEED(db.is_open());
    int wrong = 0, off = 0;
    for (int i = 0; i < N; i += 97) {
        MBData m;
        failHi = -1;
        NEED(db.Find(key(i), m) == MBError::SUCCESS);
        MBData x;
        failLo = lo;
        failHi = hi;
        failed = 0;
        int r = db.Find(key(i), x);
        failHi = -1;
        if (!failed)
            continue;
        off++;
        if (r == MBError::SUCCESS || r == MBError::NOT_EXIST)
            wrong++;
    }
    printf("%d lookups with a failed read, %d of them not reported\n", off, wrong);
    NEED(off > 100);
    NEED(wrong == 0);
    return 0;
}
// no space for another block
static int full()
{
    signal(SIGXFSZ, SIG_IGN);
    DB db(conf(CONSTS::WriterOptions()));
    NEED(db.is_open());

    rlimit l = { 4 * 1024 * 1024 - 1, 4 * 1024 * 1024 - 1 };
    NEED(setrlimit(RLIMIT_FSIZE, &l) == 0);
    int r = MBError::SUCCESS;
    string big(8000, 'v');
    for (int i = 0; i < 2000 && r == MBError::SUCCESS; i++)
        r = db.Add(key(i), big);
    printf("add: %d\n", r);
    NEED(r != MBError::SUCCESS);
    return 0;
}
// a backup to a destination which takes no more than half of a file
static int backup()
{
    signal(SIGXFSZ, SIG_IGN);
    DB db(conf(CONSTS::WriterOptions()));
    NEED(db.is_open());
    for (int i = 0; i < 1000; i++)
        NEED(db.Add(key(i), key(i)) == MBError::SUCCESS);
    string bk = dir + "/bk";
    mkdir(bk.c_str(), 0755);
    rlimit l = { 2 * 1024 * 1024, 2 * 1024 * 1024 };
    NEED(setrlimit(RLIMIT_FSIZE, &l) == 0);
    int r = db.Backup(bk.c_str());
    printf("backup: %d\n", r);
    NEED(r != MBError::SUCCESS);
    return 0;
}
int main(int c, char** v)
{
    dir = v[2];
    string k = v[1];
    system(("rm -rf " + dir + " && mkdir -p " + dir + "/db " + dir + "/q").c_str());
    pid_t p = fork();
    if (p == 0) {
        alarm(200);
        _exit(k == "value" ? reads(44, 60) : k == "tail" ? reads(24, 40) : k == "full" ? full() : backup());
    }
    int st = 0;
    waitpid(p, &st, 0);
    system(("rm -rf " + dir).c_str());
    if (WIFSIGNALED(st))
        printf("signal %d\n", WTERMSIG(st));
    return st != 0;
}
