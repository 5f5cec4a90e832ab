// Configuration through files and the environment instead of API calls.
// cfg conf.KEY = SOURCE[DECOYS][+]: where KEY's value of the plan comes from (f: hxhim.conf,
// e: the file named by HXHIM_CONFIG, v: an environment variable of its own, a: API call), and
// which sources of lower priority hold another value that must not be used.
#include "conf.hpp"
#include "simfs.hpp"
#include "utils/elen.hpp"
#include <cstdlib>
#include <cstring>
#include <set>
#include <unistd.h>
using std::string;
using sim::conf_files;
using std::to_string;
using std::vector;

namespace {
std::set<string> *handled;
struct Item { string name, value, decoy; bool quiet = false; };     // quiet: no decoys

// the names and values in the configuration of one setting of a plan
vector<Item> items(const Plan &p, int inc, const string &k) {
    vector<Item> v;
    auto get = [&](const char *key, const char *d) { return p.get(inc, key, d); };
    auto num = [&](const char *name, long d, long wrong) { const long x = p.geti(inc, k, d); v.push_back({name, to_string(x), to_string(x == wrong ? wrong + 1 : wrong)}); };
    if (k == "client_ratio") num("CLIENT_RATIO", 1, 2);
    else if (k == "server_ratio") num("SERVER_RATIO", 1, 2);
    else if (k == "per_server") num("DATASTORES_PER_SERVER", 1, 2);
    else if (k == "backend") {
        const string b = get("backend", "mem");
        v.push_back({"DATASTORE", b == "mem" ? "IN_MEMORY" : b == "leveldb" ? "LEVELDB" : "ROCKSDB", b == "mem" ? "LEVELDB" : "IN_MEMORY"});
        const bool c = p.geti(inc, "create", 1);
        if (b != "mem") v.push_back({b == "leveldb" ? "LEVELDB_CREATE_IF_MISSING" : "ROCKSDB_CREATE_IF_MISSING", c ? "TRUE" : "false", c ? "false" : "true"});
    } else if (k == "name") {
        v.push_back({"DATASTORE_PREFIX", get("prefix", SIMDISK "/db"), SIMDISK "/other"});
        v.push_back({"DATASTORE_BASENAME", get("basename", "a"), "wrong"});
        if (get("postfix", "") != "") v.push_back({"DATASTORE_POSTFIX", get("postfix", ""), "-wrong"});
    } else if (k == "transport") {
        const bool null = get("transport", "mpi") == "null";
        v.push_back({"TRANSPORT", null ? "NULL" : "MPI", null ? "MPI" : "NULL"});
        if (!null) v.push_back({"NUM_LISTENERS", get("listeners", "1"), "4"});
    } else if (k == "hash") {
        string h = get("hash", "fnv");
        if (h == "zero") h = "DATASTORE_0";
        else if (h == "sum") h = "SUM_MOD_DATASTORES";
        else if (h == "rank") h = "RANK_MOD_DATASTORES";
        else if (h.compare(0, 6, "UTHASH")) return v;               // only the API can set it
        v.push_back({"HASH", h, h == "DATASTORE_0" ? "SUM_MOD_DATASTORES" : "DATASTORE_0"});
    } else if (k == "egroup") {
        const string g = get("egroup", "");
        string list;
        if (g == "") list = "ALL";
        else for (int i = 0; i < 16; i++) if (in_group(g, i)) list += (list.empty() ? "" : i % 2 ? " " : "  ") + to_string(i);
        v.push_back({"ENDPOINT_GROUP", list, "0"});
    } else if (k == "async") num("START_ASYNC_PUTS_AT", 0, 1);
    else if (k == "max_ops") { if (p.geti(inc, k, 0)) num("MAXIMUM_OPS_PER_REQUEST", 0, 1); }
    else if (k == "max_size") num("MAXIMUM_SIZE_PER_REQUEST", 0, 50);
    else if (k == "first_n") num("HISTOGRAM_FIRST_N", 4, 1);
    else if (k == "hist_gen") { const string g = get("hist_gen", ""); if (g != "") v.push_back({"HISTOGRAM_BUCKET_GEN_NAME", g, g == "RICE_RULE" ? "UNIFORM_LOG2" : "RICE_RULE"}); }
    else if (k == "hist_io") {
        const bool r = p.geti(inc, "hist_read", 1), w = p.geti(inc, "hist_write", 1);
        v.push_back({"HISTOGRAM_READ_EXISTING", r ? "true" : "False", r ? "false" : "true"});
        v.push_back({"HISTOGRAM_WRITE_AT_EXIT", w ? "True" : "false", w ? "false" : "true"});
    } else if (k == "track") {
        string names;
        for (int i = 0; i < 3; i++) {
            const string t = p.get(inc, "track" + to_string(i), "");
            if (t != "") names += (names.empty() ? "" : ",") + parse_elem(t, 0, 0).bytes;
        }
        v.push_back({"HISTOGRAM_TRACK_PREDICATES", names, "wrong,other"});
    } else if (k == "elen") {
        if (p.geti(inc, "elen", 0)) {
            v.push_back({"ELEN_NEG_SYMBOL", string(1, elen::NEG_SYMBOL), "+"});
            v.push_back({"ELEN_POS_SYMBOL", string(1, elen::POS_SYMBOL), "~"});
            v.push_back({"ELEN_ENCODE_FLOAT_PRECISION", to_string(elen::encode::FLOAT_PRECISION), "2"});
            v.push_back({"ELEN_ENCODE_DOUBLE_PRECISION", to_string(elen::encode::DOUBLE_PRECISION), "14"});
        }
    } else if (k == "debug") v.push_back({"DEBUG_LEVEL", "ERROR", "EMERGENCY"});
    return v;
}
} // namespace

const vector<string> &conf_keys() {
    static const vector<string> k = {"client_ratio", "server_ratio", "per_server", "backend", "name", "transport", "hash", "egroup", "async", "max_ops", "max_size", "first_n", "hist_gen", "hist_io", "track", "elen", "debug"};
    return k;
}

void conf_prepare(const Plan &p, int inc) {
    handled = new std::set<string>();
    // nothing from outside
    for (char **e = environ; e && *e;) {
        const char *eq = strchr(*e, '=');
        if (eq && !strncmp(*e, "HXHIM_", 6)) { unsetenv(string(*e, eq - *e).c_str()); e = environ; } else e++;
    }
    conf_files = new std::map<string, string>();
    const uint64_t seed = p.geti(inc, "conf", 0);
    if (!seed) return;
    const string named = SIMDISK "/job.conf";
    string file[2];
    auto noise = [&](string &f, uint64_t h) {
        static const char *n[] = {"# HASH DATASTORE_0\n", "\n", "   \n", "#\n", "  # DATASTORE none\n", "UNKNOWN_SETTING 7\n", "#CLIENT_RATIO 9\n"};
        if (h % 3 == 0) f += n[(h >> 8) % 7];
    };
    bool need[2] = {false, false};
    for (auto &k : conf_keys()) {
        const string s = p.get(inc, "conf." + k, "");
        if (s.empty()) continue;
        // a hash is only read together with its transport
        if (k == "hash") {
            const string t = p.get(inc, "conf.transport", "");
            if (t.empty() || t[0] == 'a' || p.get(inc, "transport", "mpi") == "null") continue;
        }
        auto v = items(p, inc, k);
        if (v.empty()) continue;
        const char src = s[0];
        if (src != 'a') handled->insert(k);
        int i = 0;
        for (auto &it : v) {
            const uint64_t h = sim::mix2(seed, std::hash<string>()(it.name));
            auto put = [&](char where, const string &value) {
                if (where == 'v') { setenv(("HXHIM_" + it.name).c_str(), value.c_str(), 1); return; }
                string &f = file[where == 'e'];
                noise(f, h >> 3);
                static const char *ind[] = {"", "", " ", "\t"}, *gap[] = {" ", "\t", "     ", " \t "}, *end[] = {"\n", "\n", " \n", "\t \n"};
                f += ind[h % 4] + it.name + gap[(h >> 5) % 4] + value + end[(h >> 9) % 4];
            };
            for (size_t d = 1; d < s.size(); d++) {
                // the decoys of a setting with several names may be incomplete
                if (v.size() > 1 && (h >> 13) % 4 == 0) continue;
                if (s[d] != src) put(s[d], it.decoy);
            }
            if (src != 'a') { put(src, it.value); if (src != 'v') need[src == 'e'] = true; }
            i++;
        }
    }
    // a file that decides nothing may be missing; the last line may lack its end
    for (int i = 0; i < 2; i++) {
        if (!need[i] && sim::mix2(seed, i) % 3 == 0) continue;
        if (!file[i].empty() && sim::mix2(seed, 10 + i) % 3 == 0 && file[i].back() == '\n') file[i].pop_back();
        if (!file[i].empty() || sim::mix2(seed, 20 + i) % 2) (*conf_files)[i ? named : "hxhim.conf"] = file[i];
    }
    if (need[1] || sim::mix2(seed, 30) % 2) setenv("HXHIM_CONFIG", named.c_str(), 1);
    else conf_files->erase(named);
    if (sim::logging) for (auto &f : *conf_files) sim::log("file %s:\n%s", f.first.c_str(), f.second.c_str());
}

bool conf_has(const string &key) { return handled && handled->count(key); }
