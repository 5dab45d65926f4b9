// bd <case> <dir>: long keys and values, and edges of every length; exit 0 when it behaves
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include "db.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
using namespace mabain;
using std::string;
static string dir;
static MBConfig conf(int opt)
{
    static string q = dir + "/q", d = dir + "/db/";
    MBConfig c;
    memset(&c, 0, sizeof(c));
    c.mbdir = d.c_str();
    c.options = opt;
    c.memcap_index = c.memcap_data = 64 * 1024 * 1024LL;
    c.queue_dir = q.c_str();
    c.queue_size = 4;
    c.num_entry_per_bucket = 8;
    return c;
}
#define NEED(x)                                \
    if (!(x)) {                                \
        printf("line %d: %s\n", __LINE__, #x); \
        fflush(stdout);                        \
        return 1;                              \
    }
static bool has(DB& db, const string& k, const string& v)
{
    MBData m;
    return db.Find(k, m) == 0 && m.data_len == (int)v.size() && memcmp(m.buff, v.data(), v.size()) == 0;
}
int main(int argc, char** argv)
{
    string k = argv[1];
    dir = argv[2];
    if (k == "child") { // another process than the writer's
        MBConfig r = conf(CONSTS::ReaderOptions());
        DB rd(r);
        NEED(rd.is_open());
        string v(32767 + 2, 'v');
        return rd.AddAsync("a", 1, v.data(), (int)v.size()) == MBError::OUT_OF_BOUND ? 0 : 6;
    }
    if (k == "queue" || k == "remove") {
        MBConfig w = conf(CONSTS::WriterOptions() | CONSTS::ASYNC_WRITER_MODE), r = conf(CONSTS::ReaderOptions());
        DB db(w);
        NEED(db.is_open());
        DB rd(r);
        NEED(rd.is_open() && rd.AsyncWriterEnabled());
        if (k == "remove") {
            string key(400, 'k');
            NEED(rd.Remove(key) == MBError::OUT_OF_BOUND);
        } else {
            string cmd = string(argv[0]) + " child " + dir;
            NEED(system(cmd.c_str()) == 0);
        }
        rd.Close();
        db.Close();
        return 0;
    }
    MBConfig w = conf(CONSTS::WriterOptions());
    DB db(w);
    NEED(db.is_open());
    if (k == "value") {
        for (int n : { 1, 32767, 32768, 65535, 65536, 65600, 70000 }) {
            string key = "key" + std::to_string(n), v(n, 'v');
            int rc = db.Add(key, v);
            NEED(n > 32767 || rc == 0);
            NEED(rc != 0 || has(db, key, v));
        }
    } else if (k == "key") {
        for (int n = 200; n < 600; n++) {
            string key = string(1, (char)(n % 200 + 1)) + string(n - 1, 'a' + n % 26);
            int rc = db.Add(key, "v" + std::to_string(n));
            NEED(rc != 0 || has(db, key, "v" + std::to_string(n)));
        }
    } else if (k == "split") {
        // every way to divide an edge, with and without text after the division
        std::map<string, string> all;
        int first = 1;
        for (int len = 2; len < 24; len++)
            for (int at = 1; at < len; at++) {
                string key(len, 'x');
                key[0] = (char)first++;
                if (first == 256)
                    first = 1;
                for (int i = 1; i < len; i++)
                    key[i] = 'a' + (len * 7 + at * 3 + i) % 26;
                string part = key.substr(0, at), other = part + "Z" + string(len % 9, 'q');
                for (auto& s : { key, part, other })
                    if (!all.count(s)) {
                        all[s] = "value of " + s;
                        NEED(db.Add(s, all[s]) == 0);
                    }
                for (auto& s : { key, part, other })
                    NEED(has(db, s, all[s]));
            }
        for (auto& [s, v] : all)
            NEED(has(db, s, v));
    }
    db.Close();
    return 0;
}
