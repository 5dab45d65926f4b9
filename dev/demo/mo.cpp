// mo <case> <dir>: a memory-only database next to files of another one; exit 0 when it behaves
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include "db.h"
#include "dict.h"
#include "drm_base.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
using namespace mabain;
using std::string;
static string dir;
static bool watch = false;
static int touched = 0;
extern "C" int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
    if (watch && (strstr(p, "_mabain_h") || strstr(p, "_mabain_i") || strstr(p, "_mabain_d"))) {
        touched++;
        printf("opened %s\n", p);
        fflush(stdout);
    }
    return real(p, fl, mode);
}
#define NEED(x)                                \
    if (!(x)) {                                \
        printf("line %d: %s\n", __LINE__, #x); \
        fflush(stdout);                        \
        return 1;                              \
    }
int main(int argc, char** argv)
{
    string k = argv[1];
    dir = argv[2];
    string d = dir + "/db/", q = dir + "/q", b = dir + "/bk/";
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = CONSTS::WriterOptions();
    c.block_size_index = c.block_size_data = 4 << 20;
    c.memcap_index = c.memcap_data = 64 << 20;
    c.queue_dir = q.c_str();
    c.queue_size = 4;
    c.num_entry_per_bucket = 8;
    {
        DB disk(c);
        NEED(disk.is_open());
        string v(20000, 'v');
        for (int i = 0; i < 600; i++)
            NEED(disk.Add("disk" + std::to_string(i), v) == 0);
        disk.Close();
    }
    DB::ClearResources(d);
    watch = true;
    c.options |= CONSTS::MEMORY_ONLY_MODE;
    DB db(c);
    NEED(db.is_open());
    for (int i = 0; i < 300; i++)
        NEED(db.Add("mem" + std::to_string(i), "value") == 0);
    MBData m;
    for (int i = 0; i < 300; i++)
        NEED(db.Find("mem" + std::to_string(i), m) == 0);
    NEED(db.Find("disk1", m) == MBError::NOT_EXIST);
    if (k == "find") { // while a compaction runs and all slots of readers are taken
        IndexHeader* h = db.GetDictPtr()->GetHeaderPtr();
        h->reader_epoch_tracking_active.store(1);
        for (uint32_t i = 0; i < h->reader_epoch_slot_count; i++)
            h->reader_epoch_slot[i].connect_id.store(4711);
        NEED(db.Find("mem7", m) == 0);
        h->reader_epoch_tracking_active.store(0);
        for (uint32_t i = 0; i < h->reader_epoch_slot_count; i++)
            h->reader_epoch_slot[i].connect_id.store(0);
    }
    if (k == "read") // an offset in a block that was not written yet
        for (size_t off : { size_t(4 << 20) + 64, size_t(8 << 20) + 640 }) {
            MBData x;
            int r = db.ReadDataByOffset(off, x);
            NEED(r != 0 || x.data_len != 20000);
        }
    if (k == "backup") {
        int r = db.Backup(b.c_str());
        NEED(r == MBError::NOT_ALLOWED);
        NEED(access((b + "_mabain_h").c_str(), F_OK) != 0);
    }
    NEED(touched == 0);
    db.Close();
    watch = false;
    c.options &= ~CONSTS::MEMORY_ONLY_MODE;
    DB::ClearResources(d);
    DB disk(c);
    NEED(disk.is_open());
    for (int i = 0; i < 600; i++)
        NEED(disk.Find("disk" + std::to_string(i), m) == 0 && m.data_len == 20000);
    return 0;
}
