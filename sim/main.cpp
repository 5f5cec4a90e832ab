// simcheck: generates plans, runs them under the simulator, judges what
// happened, confirms and minimises violations, replays them.
#include "plan.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
using std::string;
using std::vector;

extern "C" void sim_mlog(int on);

struct Run {
    Verdict v;
    bool harness = false;
    uint64_t hash = 0, state = 0;
    vector<vector<ChoiceRec>> choices;
    vector<uint32_t> outcomes;
    Counters c{};
    uint64_t choice_dropped = 0, events = 0;
    std::map<string, uint64_t> stats;
    int crashes = 0;
};
static uint8_t cover[COVER_BITS / 8];
static bool verbose = false, print_hist = false;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void add_counters(Counters &a, const Counters &b) {
    uint64_t *x = (uint64_t *)&a;
    const uint64_t *y = (const uint64_t *)&b;
    for (size_t i = 0; i < sizeof(Counters) / 8; i++) x[i] += y[i];
}

static Run run_plan(const Plan &p) {
    Run r;
    RunInfo info;
    sh->hist_len = 0;
    sh->disk_len = 0;
    r.hash = 1;
    for (size_t i = 0; i < p.incs.size(); i++) {
        sh->outcome = O_NONE;
        sh->viol_class[0] = sh->message[0] = 0;
        sh->trace_hash = sh->state_hash = 0;
        memset(&sh->c, 0, sizeof sh->c);
        memset(sh->cover, 0, sizeof sh->cover);
        sh->choice_len = sh->choice_dropped = 0;
        sh->alloc_live = 0;
        fflush(stdout); fflush(stderr);
        const pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit core = {0, 0};
            setrlimit(RLIMIT_CORE, &core);
            struct itimerval it = {};
            it.it_value.tv_sec = 30;              // processor time without an end: spinning
            setitimer(ITIMER_PROF, &it, nullptr);
            if (!verbose) {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1); dup2(fd, 2);
            }
            logging = verbose;
            sim_mlog(p.geti(i, "mlog", 0));
            drive(p, i);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) {}
        if (WIFSIGNALED(st) && sh->outcome == O_NONE) {
            sh->outcome = O_VIOLATION;
            if (WTERMSIG(st) == SIGPROF) {
                snprintf(sh->viol_class, sizeof sh->viol_class, "spin");
                snprintf(sh->message, sizeof sh->message, "a thread computes without end and without reaching any scheduling point");
            } else {
                snprintf(sh->viol_class, sizeof sh->viol_class, "crash");
                snprintf(sh->message, sizeof sh->message, "the process was ended by signal %d", WTERMSIG(st));
            }
        } else if (WIFEXITED(st) && sh->outcome == O_NONE) {
            sh->outcome = O_VIOLATION;
            snprintf(sh->viol_class, sizeof sh->viol_class, WEXITSTATUS(st) == 77 ? "memory" : "exit");
            snprintf(sh->message, sizeof sh->message, "the process exited with status %d", WEXITSTATUS(st));
        }
        info.outcomes.push_back(sh->outcome);
        r.outcomes.push_back(sh->outcome);
        r.hash = mix2(r.hash, sh->trace_hash);
        // what is left at the end, whatever order led there
        { uint64_t k = 0; for (uint64_t b = 0; b < sh->disk_len; b++) k = k * 1099511628211ull + sh->disk[b] + 1; r.state = mix2(r.state, k); }
        r.choices.emplace_back(sh->choices, sh->choices + sh->choice_len);
        r.choice_dropped += sh->choice_dropped;
        add_counters(r.c, sh->c);
        for (size_t k = 0; k < sizeof cover; k++) cover[k] |= sh->cover[k];
        if (sh->outcome == O_HARNESS) { r.harness = true; r.v.ok = false; r.v.cls = "harness"; r.v.msg = sh->message; return r; }
        if (sh->outcome == O_CRASHED) r.crashes++;
        if (sh->outcome == O_VIOLATION) {
            r.v.ok = false;
            r.v.prop = p.prop;
            r.v.cls = sh->viol_class;
            r.v.msg = "incarnation " + std::to_string(i) + ": " + sh->message;
            break;
        }
    }
    auto hist = history_read();
    r.events = hist.size();
    // the history is part of what a replay must reproduce
    for (auto &e : hist) {
        uint64_t h = e.type;
        for (int64_t x : {(int64_t)e.rank, (int64_t)e.op, (int64_t)e.idx, e.a, e.b, e.c, e.d, e.e, e.f}) h = mix2(h, x);
        for (const string *s : {&e.s0, &e.s1, &e.s2}) { uint64_t k = 0; for (unsigned char c : *s) k = k * 1099511628211ull + c + 1; h = mix2(h, k); }
        r.hash = mix2(r.hash, h);
        if (e.type == EV_RESULT) r.state += mix64(h);
    }
    if (print_hist) {
        static const char *en[] = {"?", "INC", "invoke", "return", "result", "results-end", "packet", "info", "leak", "hash"};
        int k = 0;
        for (auto &e : hist) {
            printf("%4d %-11s rank %d op %llu.%u a=%lld b=%lld c=%lld d=%llx e=%llx f=%llx", k++, en[e.type], e.rank, (unsigned long long)e.op, e.idx, (long long)e.a, (long long)e.b, (long long)e.c, (long long)e.d, (long long)e.e, (long long)e.f);
            if (e.type == EV_RESULT) printf(" s=%s p=%s o=%s", hex_elem(e.s0).c_str(), hex_elem(e.s1).c_str(), hex_elem(e.s2).substr(0, 60).c_str());
            printf("\n");
        }
    }
    if (r.v.ok) r.v = judge(p, hist, info, r.stats);
    return r;
}

static Plan as_replay(const Plan &p, const Run &r) {
    Plan q = p;
    q.replay = true;
    for (size_t i = 0; i < q.incs.size(); i++) q.incs[i].choices = i < r.choices.size() ? r.choices[i] : vector<ChoiceRec>();
    return q;
}

// ------------------------------------------------------------ minimiser
struct Minimiser {
    string cls;
    double until;
    uint64_t tries = 0;
    Plan best;
    bool test(const Plan &p) {
        if (now() > until) return false;
        tries++;
        Run r = run_plan(p);
        if (r.harness || r.v.ok || r.v.cls != cls) return false;
        best = p;
        return true;
    }
    // removes chunks of a list
    template <typename Get> void ddmin(Get get, size_t floor_chunk = 1) {
        size_t n = get(best).size();
        size_t chunk = std::max<size_t>(n / 2, 1);
        while (n && now() < until) {
            bool any = false;
            for (size_t i = 0; i < get(best).size() && now() < until;) {
                Plan p = best;
                auto &v = get(p);
                size_t e = std::min(i + chunk, v.size());
                v.erase(v.begin() + i, v.begin() + e);
                if (test(p)) any = true; else i += chunk;
            }
            if (chunk == floor_chunk && !any) break;
            chunk = std::max(chunk / 2, floor_chunk);
            n = get(best).size();
        }
    }
    void run() {
        // no scheduling choices at all?
        { Plan p = best; for (auto &i : p.incs) i.choices.clear(); test(p); }
        for (int round = 0; round < 2; round++) {
            for (size_t i = best.incs.size(); i-- > 0;) {
                ddmin([i](Plan &p) -> vector<Op> & { return p.incs[i].ops; });
                for (size_t k = 0; k < best.incs[i].ops.size(); k++)
                    if (best.incs[i].ops[k].args.size() > 1 && !base_kind(best.incs[i].ops[k].kind).empty())
                        ddmin([i, k](Plan &p) -> vector<string> & { return p.incs[i].ops[k].args; });
                ddmin([i](Plan &p) -> vector<FsFault> & { return p.incs[i].faults; });
                if (best.incs[i].crash.kind) { Plan p = best; p.incs[i].crash = CrashSpec(); test(p); }
            }
            for (size_t i = 0; i < best.incs.size(); i++) ddmin([i](Plan &p) -> vector<ChoiceRec> & { return p.incs[i].choices; });
            // simpler settings
            auto cfg = best.cfg;
            for (auto &kv : cfg) {
                if (kv.first == "ranks" || kv.first == "backend" || kv.first == "prefix" || kv.first == "basename") continue;
                Plan p = best; p.cfg.erase(kv.first); test(p);
            }
        }
    }
};

static string slurp(const string &f) {
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
static string json_str(const string &s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Known { string prop, cls, text; };
static vector<Known> load_known(const string &f) {
    // known: property=<id> class=<cls> match=<text to the end of the line>
    vector<Known> v;
    std::istringstream in(slurp(f));
    string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "known:")) continue;
        Known k;
        size_t a = l.find("property="), b = l.find("class="), c = l.find("match=");
        if (a == string::npos || b == string::npos || c == string::npos) continue;
        k.prop = l.substr(a + 9, l.find(' ', a) - a - 9);
        k.cls = l.substr(b + 6, l.find(' ', b) - b - 6);
        size_t e = l.find(" -- ", c);
        k.text = l.substr(c + 6, e == string::npos ? string::npos : e - c - 6);
        v.push_back(k);
    }
    return v;
}
static int known_index(const vector<Known> &kn, const string &prop, const Verdict &v) {
    for (size_t i = 0; i < kn.size(); i++)
        if (kn[i].prop == prop && kn[i].cls == v.cls && v.msg.find(kn[i].text) != string::npos) return i;
    return -1;
}

static int usage() {
    fprintf(stderr, "simcheck gen --prop P --seed S --index I [--variant V]\n"
                    "simcheck batch --prop P --seed S --from A --to B --step K --time T --out DIR [--known FILE] [--gate N] [--keep N]\n"
                    "simcheck run PLAN [-v] [-h]\n"
                    "simcheck min PLAN OUT [--time T]\n");
    return 3;
}

int main(int argc, char **argv) {
    // same addresses every time
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    if (argc < 2) return usage();
    const string mode = argv[1];
    std::map<string, string> o;
    vector<string> pos;
    for (int i = 2; i < argc; i++) {
        string a = argv[i];
        if (a == "-v") verbose = true;
        else if (a == "-h") print_hist = true;
        else if (a.compare(0, 2, "--") == 0 && i + 1 < argc) o[a.substr(2)] = argv[++i];
        else pos.push_back(a);
    }
    auto num = [&](const char *k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), 0, 10) : d; };
    shared_create();

    if (mode == "gen") {
        std::cout << generate(o["prop"], num("seed", 1), num("index", 0), o["variant"]).text();
        return 0;
    }
    if (mode == "run") {
        if (pos.empty()) return usage();
        Plan p;
        string err;
        if (!p.parse(slurp(pos[0]), &err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
        Run r = run_plan(p);
        if (r.harness) { printf("HARNESS %s\n", r.v.msg.c_str()); return 2; }
        printf("%s hash=%016llx steps=%llu sim_us=%llu\n", r.v.ok ? "OK" : ("VIOLATION " + r.v.cls).c_str(), (unsigned long long)r.hash, (unsigned long long)r.c.steps, (unsigned long long)r.c.sim_ns / 1000);
        if (!r.v.ok) printf("%s\n", r.v.msg.c_str());
        return r.v.ok ? 0 : 1;
    }
    if (mode == "min") {
        if (pos.size() < 2) return usage();
        Plan p;
        string err;
        if (!p.parse(slurp(pos[0]), &err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
        Run r = run_plan(p);
        if (r.harness || r.v.ok) { printf("does not fail\n"); return 2; }
        Minimiser m;
        m.cls = r.v.cls;
        m.best = p.replay ? p : as_replay(p, r);
        m.until = now() + num("time", 40);
        if (!p.replay && !m.test(m.best)) { printf("recorded choices do not reproduce the run\n"); m.best = p; }
        else m.run();
        r = run_plan(m.best);
        m.best.note = r.v.cls + ": " + r.v.msg.substr(0, r.v.msg.find('\n'));
        std::ofstream(pos[1]) << m.best.text();
        size_t ops = 0, ch = 0;
        for (auto &i : m.best.incs) { ops += i.ops.size(); ch += i.choices.size(); }
        printf("minimised to %zu operations, %zu choices in %llu runs: %s\n%s\n", ops, ch, (unsigned long long)m.tries, r.v.cls.c_str(), r.v.msg.c_str());
        return 1;
    }
    if (mode != "batch") return usage();

    const string prop = o["prop"], out = o["out"];
    const uint64_t seed = num("seed", 1), from = num("from", 0), to = num("to", ~0ull), step = num("step", 1), gate = num("gate", 50), keep = num("keep", 1);
    const double end = now() + num("time", 30);
    const auto known = load_known(o["known"]);
    std::map<string, uint64_t> stats;
    std::map<int, uint64_t> known_hits;
    std::unordered_set<uint64_t> traces, states;
    Counters total{};
    uint64_t runs = 0, incs = 0, gates = 0, gate_bad = 0, dropped = 0, found = 0, crashes = 0, nontrivial = 0, events = 0, harness = 0;
    std::map<string, uint64_t> by_cfg;
    FILE *tracef = fopen((out + "/traces-" + std::to_string(from) + ".bin").c_str(), "wb");
    if (!tracef) { perror(out.c_str()); return 3; }
    setvbuf(tracef, nullptr, _IOFBF, 1 << 16);
    const double t0 = now();
    for (uint64_t i = from; i < to && now() < end; i += step) {
        Plan p = generate(prop, seed, i, o["variant"]);
        p.prop = prop;
        Run r = run_plan(p);
        runs++;
        incs += r.outcomes.size();
        crashes += r.crashes;
        dropped += r.choice_dropped;
        events += r.events;
        add_counters(total, r.c);
        for (auto &s : r.stats) stats[s.first] += s.second;
        by_cfg["ranks=" + p.get(0, "ranks", "1") + " backend=" + p.get(0, "backend", "mem") + " per_server=" + p.get(0, "per_server", "1")]++;
        bool new_trace = traces.insert(r.hash).second;
        states.insert(r.state);
        if (new_trace && r.c.switches > 0 && r.events > 8) { nontrivial++; fwrite(&r.hash, 8, 1, tracef); }
        if (r.harness) {
            harness++;
            std::ofstream(out + "/harness-" + std::to_string(i) + ".plan") << p.text();
            printf("{\"harness\":%s,\"index\":%llu}\n", json_str(r.v.msg).c_str(), (unsigned long long)i);
            continue;
        }
        if (!r.v.ok) {
            const int k = known_index(known, prop, r.v);
            if (k >= 0) { known_hits[k]++; continue; }
            const string f = out + "/viol-" + std::to_string(i) + ".plan";
            p.note = r.v.cls;
            // the recorded choices must reproduce it exactly
            Plan q = as_replay(p, r);
            Run r2 = run_plan(q);
            const bool exact = !r2.v.ok && r2.v.cls == r.v.cls && r2.hash == r.hash;
            std::ofstream(f) << (exact || (!r2.v.ok && r2.v.cls == r.v.cls) ? q.text() : p.text());
            printf("{\"violation\":%s,\"message\":%s,\"index\":%llu,\"plan\":%s,\"exact\":%s}\n", json_str(r.v.cls).c_str(), json_str(r.v.msg).c_str(), (unsigned long long)i, json_str(f).c_str(), exact ? "true" : "false");
            fflush(stdout);
            if (++found >= keep) break;
            continue;
        }
        if (gate && runs % gate == 1) {
            gates++;
            Run r2 = run_plan(p);
            Plan q = as_replay(p, r);
            Run r3 = run_plan(q);
            if (r2.hash != r.hash || (r.choice_dropped == 0 && r3.hash != r.hash)) {
                gate_bad++;
                std::ofstream(out + "/gate-" + std::to_string(i) + ".plan") << p.text();
                std::ofstream(out + "/gate-" + std::to_string(i) + ".replay") << q.text();
                printf("{\"gate\":\"%s\",\"index\":%llu}\n", r2.hash != r.hash ? "seed" : "replay", (unsigned long long)i);
            }
        }
    }
    fclose(tracef);
    std::ostringstream j;
    j << "{\"summary\":1,\"runs\":" << runs << ",\"incarnations\":" << incs << ",\"wall\":" << now() - t0 << ",\"crashes\":" << crashes
      << ",\"gates\":" << gates << ",\"gate_bad\":" << gate_bad << ",\"dropped\":" << dropped << ",\"nontrivial\":" << nontrivial
      << ",\"events\":" << events << ",\"harness_errors\":" << harness;
    j << ",\"counters\":{\"steps\":" << total.steps << ",\"switches\":" << total.switches << ",\"threads\":" << total.threads << ",\"sim_ns\":" << total.sim_ns;
#define C(x) << ",\"" #x "\":" << total.x
    j C(msgs) C(msg_delayed) C(msg_rendezvous) C(msg_bytes) C(wildcard_multi) C(cond_spurious) C(stalls) C(clock_jumps) C(polls_spurious) C(prio_changes)
      C(fs_ops) C(fs_syncs) C(fs_write_err) C(fs_sync_err) C(fs_read_err) C(fs_open_err) C(fs_rename_err) C(fs_nospace) C(fs_short)
      C(crash_kill) C(crash_power) C(crash_lost_bytes) C(crash_torn_files) C(crash_lost_meta) C(accesses) C(races_checked) C(req_packets) C(req_multi) C(allocs) C(frees);
    static const char *pk[] = {"mutex", "cond", "mpi", "fs", "alloc", "clock", "thread", "access", "driver"};
    for (int k = 0; k < PT_KINDS; k++) j << ",\"point_" << pk[k] << "\":" << total.points[k];
    j << "},\"stats\":{";
    bool first = true;
    for (auto &s : stats) { j << (first ? "" : ",") << json_str(s.first) << ":" << s.second; first = false; }
    j << "},\"configs\":{";
    first = true;
    for (auto &s : by_cfg) { j << (first ? "" : ",") << json_str(s.first) << ":" << s.second; first = false; }
    j << "},\"known\":{";
    first = true;
    for (auto &k : known_hits) { j << (first ? "" : ",") << "\"" << k.first << "\":" << k.second; first = false; }
    j << "},\"cover\":\"";
    static const char *hx = "0123456789abcdef";
    for (uint8_t b : cover) { j << hx[b >> 4] << hx[b & 15]; }
    j << "\",\"traces\":" << traces.size() << ",\"states\":" << states.size() << "}";
    puts(j.str().c_str());
    return found ? 1 : 0;
}
