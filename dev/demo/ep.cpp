// Startup rebuild and reader epochs, single threaded.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <atomic>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#define private public
#define protected public
#include "db.h"
#include "dict.h"
#include "drm_base.h"
#include "mb_rc.h"
#include "mabain_consts.h"
using namespace mabain;
static const char* dir;
static void cfg(MBConfig& c, int opt)
{
    memset(&c, 0, sizeof c);
    c.mbdir = dir;
    c.options = opt | CONSTS::OPTION_JEMALLOC;
    c.block_size_index = c.block_size_data = 1024 * 1024;
    c.max_num_index_block = c.max_num_data_block = 8;
    c.memcap_index = c.memcap_data = 8 * 1024 * 1024;
}
static int held(IndexHeader* h)
{
    int n = 0;
    for (unsigned i = 0; i < h->reader_epoch_slot_count; i++)
        if (h->reader_epoch_slot[i].connect_id.load() || h->reader_epoch_slot[i].epoch.load())
            n++;
    return n;
}
struct RC : ResourceCollection {
    uint64_t seen = 0;
    int calls = 0;
    RC(const DB& d) : ResourceCollection(d) { }
    void DoTask(int phase, DBTraverseNode& n) override
    {
        calls++;
        if (header->reader_epoch.load() > seen)
            seen = header->reader_epoch.load();
        ResourceCollection::DoTask(phase, n);
    }
};
int main(int argc, char** argv)
{
    dir = argv[1];
    int sc = atoi(argv[2]);
    mkdir(dir, 0777);
    MBConfig w;
    cfg(w, CONSTS::ACCESS_MODE_WRITER);
    DB db(w);
    if (!db.is_open())
        return 9;
    for (int i = 0; i < 50; i++)
        db.Add("key" + std::to_string(i * 37), "value" + std::to_string(i));
    IndexHeader* h = db.GetDictPtr()->GetHeaderPtr();
    int bad = 0;
    if (sc == 0) {
        MBConfig r;
        cfg(r, CONSTS::ACCESS_MODE_READER);
        DB rd(r);
        if (!rd.is_open())
            return 9;
        h->reader_epoch_tracking_active.store(1);
        const char* keys[] = { "key0", "key37", "nokey", "key", "key3712345", "zzz", "" };
        for (auto k : keys) {
            for (int op = 0; op < 5; op++) {
                uint64_t n = rd.GetReaderGuardFastSlotCount() + rd.GetReaderGuardBarrierFallbackCount();
                MBData d;
                int e;
                std::string b;
                if (!*k && op != 4)
                    continue;
                if (op == 0) rd.Find(k, strlen(k), d);
                if (op == 1) rd.FindLongestPrefix(k, strlen(k), d);
                if (op == 2) rd.FindLowerBound(k, strlen(k), d, &b);
                if (op == 3) rd.InDB(k, strlen(k), e);
                if (op == 4) { rd.Find("key37", 5, d); n = rd.GetReaderGuardFastSlotCount() + rd.GetReaderGuardBarrierFallbackCount(); MBData d2; rd.ReadDataByOffset(d.data_offset, d2); }
                if (rd.GetReaderGuardFastSlotCount() + rd.GetReaderGuardBarrierFallbackCount() == n) {
                    printf("op %d key '%s': reader not announced\n", op, k);
                    bad++;
                }
                if (held(h)) {
                    printf("op %d key '%s': slot still held after the lookup\n", op, k);
                    bad++;
                    for (unsigned i = 0; i < h->reader_epoch_slot_count; i++)
                        h->reader_epoch_slot[i].Clear();
                }
            }
        }
        h->reader_epoch_tracking_active.store(0);
    }
    if (sc == 1) {
        ResourceCollection rc(db);
        h->reader_epoch_slot[0].connect_id.store(7);
        h->reader_epoch_slot[0].pid.store(1); // alive, owned by another user
        h->reader_epoch_slot[0].proc_start_time.store(0);
        h->reader_epoch_slot[0].epoch.store(3);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            if (setgid(65534) || setuid(65534))
                _exit(3);
            _exit(rc.IsReaderEpochQuiesced(3) ? 1 : 0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
            printf("a live reader of another user is treated as dead\n");
            bad++;
        }
        h->reader_epoch_slot[0].Clear();
    }
    if (sc == 2) {
        RC rc(db);
        h->reader_epoch.store(5);
        rc.startup_rebuild_.Reset(REBUILD_STATE_CUTOVER);
        rc.startup_rebuild_.rebuild_data_source_end = h->data_block_size;
        rc.startup_rebuild_.rebuild_index_source_end = h->index_block_size;
        int r = argv[3][0] == 'd' ? rc.EvacuateOneDataBlock() : rc.EvacuateOneIndexBlock();
        auto* e = argv[3][0] == 'd' ? rc.startup_rebuild_.reusable_data_block : rc.startup_rebuild_.reusable_index_block;
        printf("rval %d calls %d seen %lu retire %lu now %lu\n", r, rc.calls, rc.seen, e[0].retire_epoch, h->reader_epoch.load());
        if (r == 0 && rc.calls > 0 && e[0].retire_epoch < rc.seen) {
            printf("a reader announced at epoch %lu during the evacuation is not waited for\n", rc.seen);
            bad++;
        }
        if (r == 0 && h->reader_epoch.load() <= e[0].retire_epoch) {
            printf("epoch not advanced past the retire epoch\n");
            bad++;
        }
    }
    printf("%d wrong\n", bad);
    fflush(stdout);
    _exit(bad ? 1 : 0);
}
