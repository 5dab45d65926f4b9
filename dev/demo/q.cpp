// q <case> <dir>: the shared memory queue between handles; exit 0 when it behaves
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include "db.h"
#include "dict.h"
#include "drm_base.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
#include "shm_queue_mgr.h"
using namespace mabain;
using std::string;
static string dir;
static AsyncNode* watch = nullptr;
static int seen_type = -1;
// the library opens the pipe to wake the writer right after it has published a request
extern "C" int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
    if (watch && strstr(p, "_mpipe") && watch->in_use.load())
        seen_type = watch->type;
    return real(p, fl, mode);
}
static MBConfig conf(int opt)
{
    static string q = dir + "/q", d = dir + "/db/";
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = opt;
    c.memcap_index = c.memcap_data = 64 * 1024 * 1024LL;
    c.queue_dir = q.c_str();
    c.queue_size = 2;
    c.num_entry_per_bucket = 8;
    return c;
}
#define NEED(x)                                \
    if (!(x)) {                                \
        printf("line %d: %s\n", __LINE__, #x); \
        fflush(stdout);                        \
        return 1;                              \
    }
static bool eventually(const std::function<bool()>& f)
{
    for (int i = 0; i < 160; i++) {
        if (f())
            return true;
        usleep(50000);
    }
    return false;
}
static string self;
// an update by another process: key value overwrite
static int child(const string& what)
{
    string c = self + " child " + dir + " " + what;
    return system(c.c_str());
}
static int run_child(char** a)
{
    MBConfig cr = conf(CONSTS::ReaderOptions());
    DB rd(cr);
    if (!rd.is_open())
        return 7;
    return eventually([&] { return rd.AddAsync(a[0], strlen(a[0]), a[1], strlen(a[1]), a[2][0] == '1') == MBError::SUCCESS; }) ? 0 : 6;
}
static int run(const string& k)
{
    bool async = k != "claim" && k != "type";
    MBConfig c = conf(CONSTS::WriterOptions() | (async ? CONSTS::ASYNC_WRITER_MODE : 0));
    MBConfig cr = conf(CONSTS::ReaderOptions());
    DB db(c);
    NEED(db.is_open());
    DB rd(cr);
    NEED(rd.is_open());
    for (int i = 0; i < 300; i++)
        NEED(db.Add("key" + std::to_string(i), "value" + std::to_string(i)) == MBError::SUCCESS);
    IndexHeader* h = db.GetDictPtr()->GetHeaderPtr();
    AsyncNode* q = db.GetDictPtr()->GetAsyncQueuePtr();
    auto slot = [&] { return &q[h->queue_index.load() % h->async_queue_size]; };
    MBData m;
    if (k == "claim") { // another process has claimed the slot and is filling it
        AsyncNode* n = slot();
        n->num_reader.store(1);
        memcpy(n->key, "other", 6);
        int r = rd.Remove("key7");
        NEED(memcmp(n->key, "other", 6) == 0 && !n->in_use.load());
        NEED(r != MBError::SUCCESS);
    } else if (k == "type") {
        watch = slot();
        int r = rd.Remove("key7");
        AsyncNode* n = watch;
        watch = nullptr;
        NEED(r == MBError::SUCCESS);
        NEED(seen_type == n->type && seen_type > 0);
    } else if (k == "overwrite") {
        for (int i = 0; i < 4; i++)
            NEED(child("new one 1") == 0);
        NEED(eventually([&] { return rd.Find("new", m) == MBError::SUCCESS && !rd.AsyncWriterBusy(); }));
        for (int i = 0; i < 4; i++)
            NEED(child("new two 0") == 0);
        NEED(eventually([&] { return !rd.AsyncWriterBusy(); }));
        usleep(300000);
        NEED(rd.Find("new", m) == MBError::SUCCESS);
        NEED(m.data_len == 3 && memcmp(m.buff, "one", 3) == 0);
    } else if (k == "limits") {
        NEED(rd.CollectResource(1LL << 40, 1LL << 40, 1LL << 40, 1000) == MBError::SUCCESS);
        NEED(eventually([&] { return !rd.AsyncWriterBusy(); }));
        usleep(500000);
        NEED(rd.Count() == 300);
    } else if (k == "error") {
        size_t off = h->m_index_offset;
        uint32_t wi = h->writer_index;
        h->m_index_offset = 1; // the index looks truncated: every write to it is out of bounds
        int r = child("key7 other 1");
        bool moved = eventually([&] { return h->writer_index != wi; });
        h->m_index_offset = off;
        NEED(r == 0);
        NEED(moved); // a request that fails does not block the queue
    }
    return 0;
}
int main(int argc, char** argv)
{
    dir = argv[2];
    self = argv[0];
    if (string(argv[1]) == "child")
        return run_child(argv + 3);
    string s = "mkdir -p " + dir + "/db " + dir + "/q";
    if (system(s.c_str()))
        return 8;
    pid_t p = fork();
    if (p == 0) {
        alarm(100);
        int r = run(argv[1]);
        fflush(stdout);
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
        printf("killed by signal %d\n", WTERMSIG(st));
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
