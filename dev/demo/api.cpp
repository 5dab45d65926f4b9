// api <case> <dir>: one call of the public API per case, in a child process; exit 0 when it answers as it should
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <sstream>
#include "db.h"
#include "dict.h"
#include "drm_base.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
using namespace mabain;
using std::string;
static string dir;
static MBConfig conf(int opt)
{
    static string q;
    q = dir + "/q";
    MBConfig c;
    memset(&c, 0, sizeof(c));
    static string d;
    d = dir + "/db/";
    c.mbdir = d.c_str();
    c.options = opt;
    c.memcap_index = c.memcap_data = 64 * 1024 * 1024LL;
    c.queue_dir = q.c_str();
    return c;
}
#define NEED(x)                                              \
    if (!(x)) {                                              \
        printf("line %d: %s\n", __LINE__, #x);               \
        fflush(stdout);                                      \
        return 1;                                            \
    }
static int unopened()
{
    string none = dir + "/none/";
    DB db(none.c_str(), CONSTS::ACCESS_MODE_READER);
    NEED(!db.is_open());
    MBData m;
    NEED(db.Find("key", 3, m) != MBError::SUCCESS);
    NEED(db.FindLongestPrefix("key", 3, m) != MBError::SUCCESS);
    NEED(db.GetPendingDataBufferSize() < 0 && db.GetPendingIndexBufferSize() < 0 && db.Count() < 0);
    NEED(db.Remove("key", 3) != MBError::SUCCESS);
    int e = 0;
    NEED(!db.InDB("key", 3, e) && e != 0);
    return 0;
}
static int closed()
{
    MBConfig c = conf(CONSTS::WriterOptions());
    DB db(c);
    NEED(db.is_open());
    NEED(db.Add("key", "value") == MBError::SUCCESS);
    NEED(db.Close() == MBError::SUCCESS);
    std::ostringstream os;
    db.PrintHeader(os);
    db.PrintStats(os);
    db.DumpPrefixCacheStats(os);
    db.Close();
    NEED(os.str().empty());
    NEED(!db.is_open());
    return 0;
}
static int closed2()
{
    MBConfig c = conf(CONSTS::WriterOptions() | CONSTS::ASYNC_WRITER_MODE);
    DB db(c);
    NEED(db.is_open());
    NEED(db.Close() == MBError::SUCCESS);
    db.Close();
    NEED(!db.is_open());
    return 0;
}
static int backup()
{
    MBConfig c = conf(CONSTS::WriterOptions());
    DB db(c);
    NEED(db.is_open());
    NEED(db.Add("key", "value") == MBError::SUCCESS);
    string bk = dir + "/bk";
    NEED(db.Backup(bk.c_str()) == MBError::SUCCESS);
    NEED(db.Backup(bk.c_str()) != MBError::SUCCESS); // there is one already
    return 0;
}
static int queued()
{
    MBConfig c = conf(CONSTS::WriterOptions());
    DB db(c);
    NEED(db.is_open());
    MBConfig r = conf(CONSTS::ReaderOptions());
    DB rd(r);
    NEED(rd.is_open());
    string big(300, 'k');
    NEED(rd.RemoveAsync(big.data(), big.size()) != MBError::SUCCESS);
    return 0;
}
static int damaged()
{
    MBConfig c = conf(CONSTS::WriterOptions());
    DB db(c);
    NEED(db.is_open());
    for (int i = 0; i < 200; i++)
        NEED(db.Add("key" + std::to_string(i), "value") == MBError::SUCCESS);
    IndexHeader* h = db.GetDictPtr()->GetHeaderPtr();
    size_t off = h->m_index_offset;
    h->m_index_offset = 1; // the index looks truncated: every write to it is out of bounds
    int r = db.Remove("key150", 6);
    h->m_index_offset = off;
    NEED(r != MBError::SUCCESS);
    return 0;
}
int main(int argc, char** argv)
{
    dir = argv[2];
    string s = "mkdir -p " + dir + "/db " + dir + "/q " + dir + "/bk";
    if (system(s.c_str()))
        return 8;
    string k = argv[1];
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        int r = k == "unopened" ? unopened() : k == "closed" ? closed() : k == "closed2" ? closed2() : k == "backup" ? backup() : k == "queued" ? queued() : damaged();
        fflush(stdout);
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
        printf("killed by signal %d\n", WTERMSIG(st));
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
