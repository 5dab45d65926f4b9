// rs <case> <dir>: operations that fail or end give back what they took; exit 0 when they do
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <signal.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "db.h"
#include "error.h"
#include "mabain_consts.h"
#include "resource_pool.h"
using namespace mabain;
using std::string;
static string dir;
static MBConfig conf(int opt)
{
    static string q = dir + "/q", d;
    d = dir + "/db/";
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = opt;
    c.memcap_index = c.memcap_data = 64 * 1024 * 1024LL;
    c.queue_dir = q.c_str();
    return c;
}
#define NEED(x)                                \
    if (!(x)) {                                \
        printf("line %d: %s\n", __LINE__, #x); \
        fflush(stdout);                        \
        return 1;                              \
    }
static int fds()
{
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}
static size_t pages()
{
    std::ifstream f("/proc/self/statm");
    size_t n = 0;
    f >> n;
    return n;
}
static int run(const string& k)
{
    if (k == "lock") { // refused because another process writes
        int p[2], q[2];
        if (pipe(p) || pipe(q))
            return 2;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            close(q[1]);
            MBConfig c = conf(CONSTS::WriterOptions());
            DB w(c);
            char b = w.is_open();
            if (write(p[1], &b, 1) != 1)
                _exit(3);
            if (read(q[0], &b, 1) < 0)
                _exit(3);
            w.Close();
            _exit(0);
        }
        close(p[1]);
        close(q[0]);
        char b = 0;
        NEED(read(p[0], &b, 1) == 1 && b);
        int before = 0, after = 0;
        for (int i = 0; i < 20; i++) {
            MBConfig c = conf(CONSTS::WriterOptions());
            {
                DB w(c);
                NEED(!w.is_open());
            }
            if (i == 3)
                before = fds();
        }
        after = fds();
        close(q[1]);
        waitpid(pid, NULL, 0);
        printf("descriptors %d then %d\n", before, after);
        return after > before + 3;
    }
    if (k == "backup") { // backups that run out of space
        MBConfig c = conf(CONSTS::WriterOptions());
        DB w(c);
        NEED(w.is_open());
        NEED(w.Add("key", "value") == MBError::SUCCESS);
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit l, old;
        getrlimit(RLIMIT_FSIZE, &old);
        l = old;
        l.rlim_cur = 1024 * 1024;
        setrlimit(RLIMIT_FSIZE, &l);
        int before = 0, after = 0, failed = 0;
        for (int i = 0; i < 20; i++) {
            string b = dir + "/b" + std::to_string(i) + "/";
            mkdir(b.c_str(), 0755);
            if (w.Backup(b.c_str()) != MBError::SUCCESS)
                failed++;
            if (i == 3)
                before = fds();
        }
        after = fds();
        setrlimit(RLIMIT_FSIZE, &old);
        printf("failed %d, descriptors %d then %d\n", failed, before, after);
        NEED(failed == 20);
        NEED(w.Close() == MBError::SUCCESS);
        return after > before + 3;
    }
    if (k == "memory") { // memory-only databases that come and go
        size_t before = 0, after = 0;
        for (int i = 0; i < 12; i++) {
            MBConfig c = conf(CONSTS::WriterOptions() | CONSTS::MEMORY_ONLY_MODE);
            {
                DB w(c);
                NEED(w.is_open());
                for (int j = 0; j < 100; j++)
                    NEED(w.Add("key" + std::to_string(j), "value") == MBError::SUCCESS);
                NEED(w.Close() == MBError::SUCCESS);
            }
            ResourcePool::getInstance().RemoveAll();
            if (i == 3)
                before = pages();
        }
        after = pages();
        printf("pages %zu then %zu\n", before, after);
        return after > before + 64 * 256 * 3;
    }
    return 2;
}
int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    dir = argv[2];
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/db").c_str(), 0755);
    mkdir((dir + "/q").c_str(), 0755);
    alarm(120);
    int r = run(argv[1]);
    printf("%s %d\n", argv[1], r);
    return r;
}
