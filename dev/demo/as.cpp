// as <case> <dir>: the async writer of a process against its other users; exit 0 when it behaves
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <mutex>
#include "async_writer.h"
#include "db.h"
#include "dict.h"
#include "drm_base.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
using namespace mabain;
using std::string;
static string dir;
static MBConfig conf(int opt)
{
    static string q = dir + "/q", d = dir + "/db/";
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = opt;
    c.memcap_index = c.memcap_data = 64 * 1024 * 1024LL;
    c.queue_dir = q.c_str();
    return c;
}
#define NEED(x)                                \
    if (!(x)) {                                \
        printf("line %d: %s\n", __LINE__, #x); \
        fflush(stdout);                        \
        return 1;                              \
    }
static bool eventually(const std::function<bool()>& f)
{
    for (int i = 0; i < 200; i++) {
        if (f())
            return true;
        usleep(50000);
    }
    return false;
}
static int run(const string& k)
{
    MBConfig c = conf(CONSTS::WriterOptions() | CONSTS::ASYNC_WRITER_MODE);
    MBConfig cr = conf(CONSTS::ReaderOptions());
    DB db(c);
    NEED(db.is_open());
    DB rd(cr);
    NEED(rd.is_open());
    for (int i = 0; i < 300; i++)
        NEED(db.Add("key" + std::to_string(i), "value" + std::to_string(i)) == MBError::SUCCESS);
    AsyncWriter* aw = AsyncWriter::GetInstance(&db);
    NEED(aw != nullptr);
    IndexHeader* h = db.GetDictPtr()->GetHeaderPtr();
    MBData m;
    if (k == "remove") {
        aw->WriterLock().lock();
        int r = rd.Remove("key7");
        usleep(2500000);
        int f = rd.Find("key7", m);
        aw->WriterLock().unlock();
        NEED(r == MBError::SUCCESS);
        NEED(f == MBError::SUCCESS); // not while another holds the writer lock
        NEED(eventually([&] { return rd.Find("key7", m) == MBError::NOT_EXIST; }));
    } else if (k == "rc") {
        for (int i = 0; i < 250; i++)
            NEED(eventually([&] { return rd.Remove("key" + std::to_string(i)) == MBError::SUCCESS; }));
        NEED(eventually([&] { return rd.Find("key249", m) == MBError::NOT_EXIST; }));
        usleep(200000);
        aw->WriterLock().lock();
        size_t before = h->m_data_offset;
        int r = rd.CollectResource(1, 1);
        usleep(2500000);
        size_t held = h->m_data_offset;
        aw->WriterLock().unlock();
        NEED(r == MBError::SUCCESS);
        NEED(held == before);
        NEED(eventually([&] { return h->m_data_offset < before; }));
    } else if (k == "throw") {
        size_t off = h->m_index_offset;
        h->m_index_offset = 1; // the index looks truncated: every write to it is out of bounds
        int r = db.GetDictPtr() ? aw->AddWithLock("key15x", 6, *[&] { static MBData d; d.buff = (uint8_t*)"vv"; d.data_len = 2; return &d; }(), true) : 0;
        h->m_index_offset = off;
        NEED(r != MBError::SUCCESS);
        bool free_ = false;
        std::thread t([&] { free_ = aw->WriterLock().try_lock(); if (free_) aw->WriterLock().unlock(); });
        t.join();
        NEED(free_);
        _exit(0);
    } else if (k == "close") {
        bool released = false;
        std::mutex mu;
        auto* lk = &aw->WriterLock();
        volatile bool have = false;
        std::thread t([&] {
            lk->lock();
            have = true;
            usleep(6000000);
            mu.lock();
            released = true;
            mu.unlock();
            lk->unlock();
        });
        while (!have)
            usleep(1000);
        int r = rd.Remove("key7");
        usleep(1000000); // the thread waits for the lock now
        db.Close();
        mu.lock();
        bool ok = released;
        mu.unlock();
        if (!ok || r != MBError::SUCCESS) {
            printf("Close returned with the async thread running\n");
            fflush(stdout);
            _exit(1);
        }
        t.join();
    }
    return 0;
}
int main(int argc, char** argv)
{
    dir = argv[2];
    string s = "mkdir -p " + dir + "/db " + dir + "/q";
    if (system(s.c_str()))
        return 8;
    pid_t p = fork();
    if (p == 0) {
        alarm(100);
        int r = run(argv[1]);
        fflush(stdout);
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
        printf("killed by signal %d\n", WTERMSIG(st));
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
