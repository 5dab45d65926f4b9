// wx <case> <dir>: who may open a database for writing; exit 0 when it behaves
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "db.h"
#include "error.h"
#include "mabain_consts.h"
using namespace mabain;
using std::string;
static string dir;
static MBConfig conf(int opt, const char* sub = "/db/")
{
    static string q = dir + "/q", d;
    d = dir + sub;
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = opt;
    c.memcap_index = c.memcap_data = 64 * 1024 * 1024LL;
    c.queue_dir = q.c_str();
    return c;
}
#define NEED(x)                                \
    if (!(x)) {                                \
        printf("line %d: %s\n", __LINE__, #x); \
        fflush(stdout);                        \
        return 1;                              \
    }
// a process that has the database open for writing until told to end
struct Other {
    int up[2], down[2];
    pid_t pid;
    Other()
    {
        if (pipe(up) || pipe(down))
            abort();
        pid = fork();
        if (pid == 0) {
            close(up[0]);
            close(down[1]);
            char b = 0;
            {
                MBConfig c = conf(CONSTS::WriterOptions());
                DB db(c);
                b = db.is_open() && db.Add("other", "process") == MBError::SUCCESS;
                if (write(up[1], &b, 1) != 1)
                    _exit(3);
                if (read(down[0], &b, 1) < 0)
                    _exit(3);
                string v = "new";
                b = db.Add("again", v) == MBError::SUCCESS;
                db.Close();
            }
            _exit(b ? 0 : 2);
        }
        close(up[1]);
        close(down[0]);
    }
    bool ready()
    {
        char b = 0;
        return read(up[0], &b, 1) == 1 && b;
    }
    bool end()
    {
        int st = 1;
        if (pid > 0) {
            close(down[1]);
            waitpid(pid, &st, 0);
            pid = -1;
        }
        return st == 0;
    }
    ~Other() { end(); }
};
static int run(const string& k)
{
    if (k == "process") { // a second process is refused, then a third is let in
        Other o;
        NEED(o.ready());
        {
            MBConfig c = conf(CONSTS::WriterOptions());
            DB w(c);
            NEED(!w.is_open());
            NEED(w.Status() == MBError::WRITER_EXIST);
        }
        NEED(o.end());
        MBConfig c = conf(CONSTS::WriterOptions());
        DB w(c);
        NEED(w.is_open());
        MBData d;
        NEED(w.Find("other", d) == MBError::SUCCESS);
        NEED(w.Find("again", d) == MBError::SUCCESS);
        return 0;
    }
    if (k == "refused") { // a refused handle does not let the next one in
        MBConfig c = conf(CONSTS::WriterOptions());
        DB w(c);
        NEED(w.is_open());
        for (int i = 0; i < 3; i++) {
            MBConfig c2 = conf(CONSTS::WriterOptions());
            DB w2(c2);
            NEED(w2.Status() == MBError::WRITER_EXIST);
            w2.Close();
        }
        NEED(w.Add("k", "v") == MBError::SUCCESS);
        NEED(w.Close() == MBError::SUCCESS);
        MBConfig c3 = conf(CONSTS::WriterOptions());
        DB w3(c3);
        NEED(w3.is_open());
        return 0;
    }
    if (k == "release") { // a handle refused by another process gives its place back
        Other o;
        NEED(o.ready());
        {
            MBConfig c = conf(CONSTS::WriterOptions());
            DB w(c);
            NEED(w.Status() == MBError::WRITER_EXIST);
        }
        NEED(o.end());
        MBConfig c = conf(CONSTS::WriterOptions());
        DB w(c);
        NEED(w.is_open());
        NEED(w.Add("k", "v") == MBError::SUCCESS);
        return 0;
    }
    if (k == "assign") { // the same through assignment
        Other o;
        NEED(o.ready());
        MBConfig c = conf(CONSTS::WriterOptions());
        DB w(c);
        NEED(w.Status() == MBError::WRITER_EXIST);
        {
            MBConfig c2 = conf(CONSTS::ReaderOptions());
            DB r(c2);
            NEED(r.is_open());
            w = r;
            NEED(w.is_open());
        }
        NEED(o.end());
        MBConfig c3 = conf(CONSTS::WriterOptions());
        DB w3(c3);
        NEED(w3.is_open());
        return 0;
    }
    return 2;
}
int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    dir = argv[2];
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/db").c_str(), 0755);
    mkdir((dir + "/q").c_str(), 0755);
    alarm(120);
    int r = run(argv[1]);
    printf("%s %d\n", argv[1], r);
    return r;
}
