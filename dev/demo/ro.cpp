// ro <dir>: everything a handle without writer access does leaves the database as it was.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iterator>
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include "db.h"
#include "drm_base.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
using namespace mabain;
using std::string;
static string slurp(const string& p)
{
    std::ifstream f(p, std::ios::binary);
    return string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static std::map<string, string> snap(const string& dir)
{
    std::map<string, string> r;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d)) {
        string n = e->d_name;
        if (n.compare(0, 9, "_mabain_q") == 0 || n.compare(0, 7, "_mabain") != 0)
            continue;
        r[n] = slurp(dir + "/" + n);
        if (n == "_mabain_h") {
            IndexHeader* h = (IndexHeader*)&r[n][0];
            string s;
            for (int64_t v : { (int64_t)h->count, (int64_t)h->m_index_offset, (int64_t)h->m_data_offset, (int64_t)h->n_states, (int64_t)h->n_edges, (int64_t)h->edge_str_size, (int64_t)h->pending_data_buff_size, (int64_t)h->pending_index_buff_size, (int64_t)h->num_update, (int64_t)h->lock_free.counter.load(), (int64_t)h->lock_free.offset.load(), (int64_t)h->excep_updating_status, (int64_t)h->num_writer, (int64_t)h->writer_options, (int64_t)h->rc_root_offset.load() })
                s += std::to_string(v) + " ";
            r[n] = s;
        }
    }
    closedir(d);
    return r;
}
static int bad;
static string where;
static std::map<string, string> before;
static void check(const char* what)
{
    auto now = snap(where);
    for (auto& kv : now)
        if (!before.count(kv.first))
            printf("%s created %s\n", what, kv.first.c_str()), bad = 1;
        else if (before[kv.first] != kv.second)
            printf("%s changed %s\n", what, kv.first.c_str()), bad = 1;
    for (auto& kv : before)
        if (!now.count(kv.first))
            printf("%s removed %s\n", what, kv.first.c_str()), bad = 1;
    before = now;
}
static MBConfig conf(int opt)
{
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = where.c_str();
    c.queue_dir = where.c_str();
    c.options = opt;
    c.block_size_index = 4 * 1024 * 1024;
    c.block_size_data = 4 * 1024 * 1024;
    c.memcap_index = 64 * 1024 * 1024;
    c.memcap_data = 64 * 1024 * 1024;
    c.max_num_index_block = 16;
    c.max_num_data_block = 16;
    c.queue_size = 64;
    return c;
}
int main(int argc, char** argv)
{
    setvbuf(stdout, NULL, _IONBF, 0);
    where = argv[1];
    mkdir(argv[1], 0777);
    MBConfig wc = conf(CONSTS::ACCESS_MODE_WRITER);
    DB* w = new DB(wc);
    if (!w->is_open())
        return 8;
    for (int i = 0; i < 2000; i++)
        if (w->Add("key" + std::to_string(i * 7), "value" + std::to_string(i)) != MBError::SUCCESS)
            return 8;
    before = snap(where);
    for (int pass = 0; pass < 2; pass++) {
        // first beside the writer, then alone
        MBConfig rc = conf(CONSTS::ACCESS_MODE_READER);
        DB r(rc);
        if (!r.is_open())
            return 8;
        check("open");
        MBData d;
        r.Find("key7", d);
        r.Find("nokey", d);
        r.FindLongestPrefix("key77777777777", d);
        check("lookup");
        r.Remove(string("key14"));
        check("Remove");
        r.Remove("key21", 5);
        check("Remove");
        r.Add("key14", "other", true);
        r.Add("brandnew", "other");
        check("Add");
        r.RemoveAllSync();
        check("RemoveAllSync");
        r.RemoveAll();
        check("RemoveAll");
        r.WriteDataByOffset(64, "xxxxxxxx", 8);
        check("WriteDataByOffset");
        r.CollectResource(1, 1, 1, 1);
        check("CollectResource");
        r.Flush();
        r.Purge();
        check("Flush");
        int n = 0;
        try {
            for (DB::iterator it = r.begin(); it != r.end() && n < 10; ++it)
                n++;
        } catch (int e) {
        }
        check("iteration");
        DB copy(r);
        check("copy");
        copy.Close();
        r.Close();
        check("close");
        if (pass == 0) {
            w->Close();
            delete w;
            before = snap(where);
        }
    }
    return bad;
}
