    // ------------------------------------------------------------ range reads (C10)
    // The shipped configuration uses \x01 as the sign of negative numbers
    // (its default is std::string(NEG_SYMBOL, 1), which is not the symbol).
    static inline char neg_sign = '\x01';
    static string digits_enc(uint64_t v, bool neg) {
        string d = std::to_string(v), len;
        if (d.size() > 1) len = digits_enc(d.size(), neg);
        string out(1, neg ? neg_sign : ':');
        if (neg) for (char &c : d) c = '9' - c + '0';
        return out + len + d;
    }
    // floating point: sign, exponent (of a mantissa around 0.1), digits, opposite sign
    template <class T> static bool float_enc(const string &b, int precision, string *out) {
        T v;
        if (b.size() != sizeof v) return false;
        memcpy(&v, b.data(), sizeof v);
        if (std::isnan(v)) return false;
        if (v == 0) { *out = "0"; return true; }
        const bool neg = v < 0;
        int exp = std::numeric_limits<int>::max();
        T m = T(0.1);
        if (!std::isinf(v)) {
            const T a = std::fabs(v);
            exp = 1 + (int)std::round(std::log10(a));
            // (two steps where the power does not fit into a double)
            m = exp < -307 ? a * 1e300 * std::pow(10, -exp - 300) : a * std::pow(10, -exp);
        }
        char buf[64];
        snprintf(buf, sizeof buf, "%.*f", precision, (double)m);
        string d = buf + 2;
        if (neg) for (char &c : d) c = '9' - c + '0';
        string e = "0";
        if (exp) e = digits_enc(std::abs(exp), (exp < 0) != neg);
        *out = (neg ? neg_sign : ':') + e + d + (neg ? ':' : neg_sign);
        return true;
    }
    // order-preserving form of an element; false if this model has none
    static inline int xf_mask = 0;
    static bool elem_enc(int type, const string &b, string *out) {
        if (xf_custom(xf_mask, type)) return xf_encode(xf_mask, type, b, out);
        if (type == 5) return float_enc<float>(norm(type, b), 8, out);
        if (type == 6) return float_enc<double>(norm(type, b), 16, out);
        int64_t i = 0;
        uint64_t u = 0;
        bool neg = false;
        switch (type) {
            case 7: *out = b; return true;
            case 1: { int32_t x = 0; if (b.size() != 4) return false; memcpy(&x, b.data(), 4); i = x; neg = i < 0; u = neg ? 0ull - (uint64_t)i : i; break; }
            case 2: { if (b.size() != 8) return false; memcpy(&i, b.data(), 8); neg = i < 0; u = neg ? 0ull - (uint64_t)i : i; break; }
            case 3: { uint32_t x = 0; if (b.size() != 4) return false; memcpy(&x, b.data(), 4); u = x; break; }
            case 4: { if (b.size() != 8) return false; memcpy(&u, b.data(), 8); break; }
            default: return false;
        }
        *out = u == 0 ? "0" : digits_enc(u, neg);
        return true;
    }
    static bool order_key(const Pair &k, string *out) {
        Pair e = k;
        if (!elem_enc(k.st, k.s, &e.s) || !elem_enc(k.pt, k.p, &e.p)) return false;
        *out = key_bytes(e);
        return true;
    }
    struct Cand { Pair pair; bool maybe_absent = true, any = false; std::set<Value> vals; };   // what a pair can hold during a call
    static bool item_before(const Item *a, const Item *b) {                         // a took effect before b
        if (a->end < b->start && (b->kind == 0 || b->flush_start > a->end)) return true;
        if (b->flush_start >= 0 && a->end < b->flush_start && b->kind != 0) return true;
        if (a->rank != b->rank) return false;
        if (a->kind == 0 && b->kind == 0) return a->order < b->order;
        if (a->flush_op == b->flush_op && a->flush_op) { if (a->kind != b->kind) return a->kind < b->kind; return a->order < b->order; }
        return false;
    }
    map<string, Cand> candidates(const Session &S, const string &set, int ds, const Item *g, int64_t gs, int64_t ge, int64_t since) {
        map<string, Cand> out;
        map<Pair, vector<const Item *>> w;
        for (auto &it : S.items) {
            if ((it.kind != 0 && it.kind != 3) || it.data_set != set || it.hash_ds != ds || it.wds != g->wds || it.start < since || it.refuse) continue;
            const int64_t st = it.kind == 0 ? it.start : it.flush_start;
            if (st < 0 || st > ge) continue;
            // deletes of the same flush come after its range reads
            if (it.rank == g->rank && it.flush_op == g->flush_op && it.kind == 3) continue;
            w[it.key].push_back(&it);
        }
        auto old = before.find(S.inc);
        if (old != before.end()) for (auto &kv : old->second) if (g->hash == "rank" || g->wds >= 0 || split() ? kv.first.first == world_set(*g) : kv.first.first == set && where_is(g->hash, kv.first.second, Topo(plan, S.inc).total, g->rank) == ds) w[kv.first.second];
        for (auto &kv : w) {
            Cand c;
            c.pair = kv.first;
            auto &v = kv.second;
            auto solid = [&](const Item *i) { return i->flushed && i->have && i->status == OK && !i->maybe; };
            auto done = [&](const Item *i) { return solid(i) && (i->end < gs || (i->rank == g->rank && i->flush_op == g->flush_op && i->kind == 0)); };
            bool any_done = false;
            for (auto *i : v) {
                if (done(i)) any_done = true;
                if (i->have && i->status != OK && !affected(S.inc, ds, set)) continue;     // refused delete of an absent pair
                bool over = false;
                for (auto *j : v) if (j != i && done(j) && item_before(i, j)) over = true;
                if (over) continue;
                if (i->kind == 0) c.vals.insert(i->val);
                else c.vals.insert(Value());
            }
            if (!any_done) {
                const KeyState *k = nullptr;
                if (old != before.end()) { auto f = old->second.find({world_set(*g), kv.first}); if (f != old->second.end()) k = &f->second; }
                if (k && k->any) { c.any = true; c.vals.insert(Value()); }
                else if (k) for (auto &st : k->st) c.vals.insert(k->vals[st.cur]);
                else c.vals.insert(Value());
            }
            c.maybe_absent = c.vals.count(Value());
            c.vals.erase(Value());
            if (c.vals.empty() && !c.any) continue;
            string k;
            if (!order_key(kv.first, &k)) continue;          // (cannot be stored either)
            out[k] = c;
        }
        return out;
    }
    // an open or read error hit a LevelDB log of this datastore, up to the given incarnation
    bool log_error(int last, const string &set, int ds) {
        int inc = -1;
        const string dir = set + "-" + std::to_string(ds) + plan.get(last, "postfix", "") + "/";
        for (auto &e : hist) {
            if (e.type == EV_INC) inc = e.a;
            if (inc > last) break;
            if (e.type == EV_FAULT && (e.a == sim::FF_READ || e.a == sim::FF_OPEN) && plan.get(inc, "backend", "mem") == "leveldb" && e.s0.find(dir) != string::npos && e.s0.size() > 4 && e.s0.compare(e.s0.size() - 4, 4, ".log") == 0) return true;
        }
        return false;
    }
    struct Rec { size_t ev; string key; };
    // whether records r[from..from+k) answer the range read; reason if not
    bool answers(const Item *g, const map<string, Cand> &db, const vector<Rec> &r, size_t from, size_t k, bool faulty, bool lenient, string *why) {
        static const char *names[] = {"EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST"};
        const Triple &t = g->t;
        const int op = t.getop;
        if (g->unreachable) {
            if (k == 1 && hist[r[from].ev].b != OK) return true;
            *why = "GETOP at " + g->key.str() + " (op " + std::to_string(g->op) + "." + std::to_string(g->idx) + ") has records although datastore " + std::to_string(g->hash_ds) + " cannot be reached from this rank";
            return false;
        }
        const uint64_t n = op == 0 ? 1 : t.nrec;
        string es, ep;
        // the code says that it does not matter if the predicate cannot be encoded
        if (!xf_accepts(xf_mask, t.p) && !t.p.null && op != 3 && op != 4) return true;
        if (!xf_accepts(xf_mask, t.s) && op != 3 && op != 4) {
            if (k == 1 && hist[r[from].ev].b != OK) return true;
            *why = "GETOP at " + g->key.str() + " (op " + std::to_string(g->op) + "." + std::to_string(g->idx) + ") has records although the transform function refuses the subject";
            return false;
        }
        if (op == 3 || op == 4) ;
        else if (!elem_enc(t.s.type, t.s.bytes, &es)) return true;
        else if (!t.p.null && !elem_enc(t.p.type, t.p.bytes, &ep)) return true;
        const string prefix = es + ep;
        Pair exact;
        exact.s = es; exact.st = t.s.type; exact.p = ep; exact.pt = t.p.type;
        const string full = key_bytes(exact);
        auto in_range = [&](const string &key) {
            switch (op) {
                case 0: return key == full;
                case 1: case 2: return key >= prefix;
                case 3: case 4: return true;
                default: return key.compare(0, prefix.size(), prefix) == 0;
            }
        };
        auto say = [&](const string &s) { *why = string(op >= 0 && op < 7 ? names[op] : "unknown operation") + " of " + std::to_string(t.nrec) + " records at " + g->key.str() + " (op " + std::to_string(g->op) + "." + std::to_string(g->idx) + "): " + s; return false; };
        const bool asc = op == 1 || op == 3 || op == 5;
        // LOWEST with a number type and no number starts at the numbers
        string numbers;
        if (op == 5 && t.p.null && t.p.type >= 1 && t.p.type <= 6) numbers = es + string(1, neg_sign);
        // stored histograms are no triples, but PREV may start at one
        string hist_start;
        if (op == 2) for (int i = 0; i < 3; i++) {
            const string v = plan.get(g->inc, "track" + std::to_string(i), "");
            if (v.empty()) continue;
            Pair h;
            h.s = "HISTOGRAM"; h.st = 7; h.p = parse_elem(v, 0, 0).bytes; h.pt = 7;
            const string hk = key_bytes(h);
            if (hk < prefix || (!hist_start.empty() && hist_start < hk)) continue;
            hist_start = hk;
        }
        if (!hist_start.empty()) for (auto &c : db) if (!c.second.maybe_absent && c.first >= prefix && c.first < hist_start) { hist_start.clear(); break; }
        // something may be stored there that cannot be decoded: the whole answer is an error
        const bool mixed = mixed_numbers(g->inc);
        if ((xf_mask || mixed) && k == 1 && hist[r[from].ev].b != OK && n) {
            bool dark = false;
            for (auto &c : db) {
                auto rd = [&](int type, const string &b) { return xf_readable(xf_mask, type, b) && !(mixed && symbol_bound(type, b)); };
                bool d = !rd(c.second.pair.st, c.second.pair.s) || !rd(c.second.pair.pt, c.second.pair.p);
                for (auto &v : c.second.vals) if (!rd(v.type, v.bytes)) d = true;
                if (d && (op == 2 || in_range(c.first))) dark = true;
            }
            if (dark) { stats["getops_undecodable"]++; return true; }
        }
        // one error record
        if (k == 1 && hist[r[from].ev].b != OK) {
            const Event &e = hist[r[from].ev];
            if (op != 3 && op != 4 && (e.s0 != t.s.bytes || e.s1 != (t.p.null ? "" : t.p.bytes))) return say("the error names " + show(e.s0) + "," + show(e.s1));
            if (n == 0 || op < 0 || op > 6 || faulty) return true;
            bool below = hist_start.empty();              // nothing below a histogram that PREV may have started at
            for (auto &c : db) if (!c.second.maybe_absent && c.first < hist_start) below = true;
            for (auto &c : db) if (below && !c.second.maybe_absent && in_range(c.first) && c.first >= numbers) return say("an error, although " + c.second.pair.str() + " is stored and matches");
            return true;
        }
        if (op < 0 || op > 6) return say("records for an invalid operation");
        if (k > n) return say(std::to_string(k) + " records");
        string prev;
        for (size_t i = 0; i < k; i++) {
            const Event &e = hist[r[from + i].ev];
            if (e.b != OK) return say("an error after records");
            const string &key = r[from + i].key;
            auto c = db.find(key);
            if (c == db.end() && !lenient) return say("record " + show(e.s0) + "," + show(e.s1) + " is not stored on datastore " + std::to_string(e.c));
            Value v;
            v.present = true; v.type = e.f >> 16 & 255; v.bytes = norm(v.type, e.s2);
            if (!lenient && !c->second.any && !c->second.vals.count(v)) return say("record " + c->second.pair.str() + " has object " + v.str() + ", not what is stored");
            if (op == 2 ? (i == 0 && !in_range(key) && !(key < hist_start)) : !in_range(key)) return say("record " + show(e.s0) + "," + show(e.s1) + " is outside the range");
            if (i && (asc ? !(prev < key) : !(key < prev))) return say("record " + show(e.s0) + "," + show(e.s1) + " is out of order");
            prev = key;
        }
        if (lenient) return true;
        const string first = r[from].key, last = r[from + k - 1].key;
        for (auto &c : db) {
            if (c.second.maybe_absent) continue;
            const string &x = c.first;
            if (x < numbers) continue;
            bool skipped = false;
            if (op == 2) {
                if (x >= prefix && x < first) skipped = true;                     // started too late
                if (first < prefix && x > first && x < hist_start) skipped = true;
                if (x < first && (x > last || k < n)) { skipped = true; for (size_t i = 0; i < k; i++) if (r[from + i].key == x) skipped = false; }
            } else if (in_range(x)) {
                if (k < n || (asc ? x < last : x > last)) { skipped = true; for (size_t i = 0; i < k; i++) if (r[from + i].key == x) skipped = false; }
                if (op == 0) skipped = x != first;
            }
            if (skipped) return say("stored pair " + c.second.pair.str() + " was skipped (" + std::to_string(k) + " records returned)");
        }
        return true;
    }
    // a key this model cannot order may be stored there
    bool unordered(const Session &S, const string &set) {
        for (auto &s : sessions) {
            for (auto &it : s.items) { string k; if (it.kind == 0 && !it.refuse && it.data_set == set && (it.hash_ds < 0 || !order_key(it.key, &k))) return true; }
            if (&s == &S) break;
        }
        return false;
    }
    void check_getops() {
        for (auto &call : getop_calls) {
            xf_mask = xform(call.inc);
            neg_sign = plan.get(call.inc, "elen", "0") == "1" ? '/' : '\x01';
            Session *S = nullptr;
            for (auto &s : sessions) if (s.inc == call.inc) S = &s;
            if (!S) continue;
            map<int, vector<const Item *>> want;
            bool known = true;
            int64_t gs = -1;
            for (size_t x : call.items) {
                const Item &it = S->items[x];
                if (it.kind != 2) continue;
                if (it.hash_ds < 0 || unordered(*S, it.data_set)) known = false;
                want[it.hash_ds].push_back(&it);
                gs = it.flush_start;
            }
            if (!known) stats["getops_not_modelled"]++;
            if (!known || want.empty()) continue;
            int64_t since = 0;
            if (is_mem(call.inc)) for (int64_t o : S->opens) if (o < gs) since = o;
            map<int, vector<Rec>> got;
            for (size_t h : call.results) {
                const Event &e = hist[h];
                if (e.a != R_GETOP) continue;
                Rec r;
                r.ev = h;
                Pair k;
                k.s = e.s0; k.st = e.f & 255; k.p = e.s1; k.pt = e.f >> 8 & 255;
                if (!order_key(k, &r.key)) r.key = "?";
                got[e.c].push_back(r);
            }
            const string where = " (flush " + std::to_string(call.flush) + " of rank " + std::to_string(call.rank) + ")";
            for (auto &kv : got) if (!want.count(kv.first)) fail("getop-wrong", "GETOP records of datastore " + std::to_string(kv.first) + ", which was not asked" + where);
            for (auto &kv : want) {
                auto &items = kv.second;
                auto &r = got[kv.first];
                if (items.size() > 12) continue;
                const bool faulty_now = affected(call.inc, kv.first, items[0]->data_set);
                // records of a log that LevelDB could not read are gone (known finding): nothing to say about completeness
                const bool lenient = log_error(call.inc, items[0]->data_set, kv.first);
                const bool faulty = faulty_now || lenient;
                map<uint32_t, bool> seen;
                string why, first_why;
                vector<map<string, Cand>> dbs;
                for (auto *g : items) dbs.push_back(candidates(*S, g->data_set, kv.first, g, gs, call.ret, since));
                std::set<std::pair<size_t, uint32_t>> dead;
                size_t best = 0;
                std::function<bool(size_t, uint32_t)> go = [&](size_t pos, uint32_t used) -> bool {
                    if (used + 1 == 1u << items.size()) {
                        if (pos == r.size()) return true;
                        if (pos >= best) { best = pos; first_why = std::to_string(r.size() - pos) + " records too many"; }
                        return false;
                    }
                    if (!dead.insert({pos, used}).second) return false;
                    for (size_t i = 0; i < items.size(); i++) {
                        if (used >> i & 1) continue;
                        const size_t maxk = std::max<uint64_t>(1, items[i]->t.nrec);
                        for (size_t k = std::min(maxk, r.size() - pos); k >= 1; k--) {
                            if (!answers(items[i], dbs[i], r, pos, k, faulty, lenient, &why)) { if (pos + 1 > best || first_why.empty()) { best = pos + 1; first_why = why; } continue; }
                            if (go(pos + k, used | 1u << i)) return true;
                        }
                        if (r.size() == pos && first_why.empty()) first_why = "op " + std::to_string(items[i]->op) + " has no result";
                    }
                    return false;
                };
                stats["getops_checked"] += items.size();
                stats["getop_records"] += r.size();
                if (!go(0, 0)) { fail("getop-wrong", first_why + where); return; }
            }
        }
    }

    // ------------------------------------------------------------ histograms (C12)
    struct HState { bool exists = false; vector<double> sure, maybe; };
    static double hval(const Value &v) {
        if (v.type == 5) { float f; memcpy(&f, v.bytes.data(), 4); return f; }
        double d;
        memcpy(&d, v.bytes.data(), 8);
        return d;
    }
    void check_hists() {
        map<std::tuple<string, int, string>, HState> disk;
        for (auto &S : sessions) {
            const bool mem = is_mem(S.inc);
            bool unknown = false;
            for (auto &it : S.items) if (it.kind == 0 && it.hash_ds < 0) unknown = true;
            if (unknown) { stats["hists_not_modelled"]++; return; }
            const int cfg_write = plan.geti(S.inc, "hist_write", 1);
            const uint64_t first_n = plan.geti(S.inc, "first_n", 4);
            Topo topo(plan, S.inc);
            std::set<string> names;
            for (int i = 0; i < 3; i++) {
                string v = plan.get(S.inc, "track" + std::to_string(i), "");
                if (!v.empty()) names.insert(parse_elem(v, 0, 0).bytes);
            }
            for (size_t g = 0; g < S.segs.size(); g++) {
                auto &seg = S.segs[g];
                for (int ds = 0; ds < topo.total; ds++) for (auto &name : names) {
                    HState &d = disk[std::make_tuple(seg.data_set, ds, name)];
                    if (mem) d = HState();
                    HState base;
                    if (seg.read && d.exists) base = d;
                    else if (seg.create) base.exists = true;
                    vector<const Item *> puts;
                    for (auto &it : S.items)
                        if (it.kind == 0 && it.seg == (int)g && it.hash_ds == ds && it.key.pt == 7 && it.key.p == name && (it.val.type == 5 || it.val.type == 6) && base.exists) puts.push_back(&it);
                    auto at = [&](int64_t lo, int64_t hi, const Item *self) {
                        HState h = base;
                        for (auto *it : puts) {
                            if (it->start > hi) continue;
                            if (it->have && it->status != OK) continue;
                            const bool done = it->have && !it->maybe && (it->end < lo || (self && self->rank == it->rank && self->flush_op == it->flush_op));
                            (done ? h.sure : h.maybe).push_back(hval(it->val));
                        }
                        return h;
                    };
                    // answers
                    for (auto &call : hist_calls) {
                        if (call.inc != S.inc) continue;
                        int asked = 0;
                        const Item *one = nullptr;
                        for (size_t x : call.items) {
                            const Item &it = S.items[x];
                            if (it.kind == 4 && it.seg == (int)g && it.t.rs == ds && it.t.p.bytes == name) { asked++; one = &it; }
                        }
                        if (!asked) continue;
                        if (one->unreachable) {
                            for (size_t r : call.results) if (hist[r].a == R_HIST && hist[r].b == OK && hist[r].c == ds) fail("wrong-server", "a histogram of datastore " + std::to_string(ds) + " although it cannot be reached from rank " + std::to_string(call.rank));
                            continue;
                        }
                        const string where = " (flush " + std::to_string(call.flush) + " of rank " + std::to_string(call.rank) + ", datastore " + std::to_string(ds) + ")";
                        HState h = at(one->flush_start, call.ret, one);
                        int got = 0;
                        for (size_t r : call.results) {
                            const Event &e = hist[r];
                            if (e.a != R_HIST || e.b != OK || e.c != ds || e.s0 != name) continue;
                            got++;
                            stats["hists_checked"]++;
                            vector<double> edges(e.s2.size() / 8);
                            memcpy(edges.data(), e.s2.data(), edges.size() * 8);
                            const uint64_t L = h.sure.size(), H = L + h.maybe.size();
                            if (e.d == 1) {
                                stats["hists_with_buckets"]++;
                                if (H < first_n) fail("hist-count", "histogram " + show(name) + " has buckets after at most " + std::to_string(H) + " of the first " + std::to_string(first_n) + " values" + where);
                                vector<uint64_t> counts(e.s1.size() / 8);
                                memcpy(counts.data(), e.s1.data(), counts.size() * 8);
                                if (edges.empty() || counts.empty()) { fail("hist-count", "histogram " + show(name) + " has no buckets" + where); continue; }
                                for (size_t i = 1; i < edges.size(); i++) if (edges[i] < edges[i - 1]) fail("hist-count", "the buckets of histogram " + show(name) + " are not in order" + where);
                                uint64_t below = 0;
                                for (auto *vs : {&h.sure, &h.maybe}) for (double v : *vs) if (v < edges[0]) below++;
                                if (H - below < std::max<uint64_t>(first_n, 1)) fail("hist-count", std::to_string(below) + " of " + std::to_string(H) + " values are below the first bucket of histogram " + show(name) + where);
                                vector<uint64_t> lo(counts.size(), 0), hi(counts.size(), 0);
                                auto bucket = [&](double v) { return (int)(std::upper_bound(edges.begin(), edges.end(), v) - edges.begin()) - 1; };
                                for (double v : h.sure) { int b = bucket(v); if (b >= 0) { lo[b]++; hi[b]++; } }
                                for (double v : h.maybe) { int b = bucket(v); if (b >= 0) hi[b]++; }
                                if (L == H) stats["hists_exact"]++;
                                for (size_t i = 0; i < counts.size(); i++) if (counts[i] < lo[i] || counts[i] > hi[i]) {
                                    uint64_t total = 0;
                                    for (uint64_t c : counts) total += c;
                                    fail("hist-count", "bucket " + std::to_string(i) + " of histogram " + show(name) + " counts " + std::to_string(counts[i]) + " values, " + std::to_string(lo[i]) + " to " + std::to_string(hi[i]) + " were stored (all buckets: " + std::to_string(total) + ", stored: " + std::to_string(L) + " to " + std::to_string(H) + ")" + where);
                                    break;
                                }
                            } else {
                                if (L >= std::max<uint64_t>(first_n, 1)) fail("hist-count", "histogram " + show(name) + " has no buckets after " + std::to_string(L) + " values (first " + std::to_string(first_n) + ")" + where);
                                if ((uint64_t)e.e < L || (uint64_t)e.e > H) fail("hist-count", "histogram " + show(name) + " holds " + std::to_string(e.e) + " values, " + std::to_string(L) + " to " + std::to_string(H) + " were stored" + where);
                                std::multiset<double> have(edges.begin(), edges.end()), all(h.sure.begin(), h.sure.end());
                                for (double v : h.sure) { auto f = have.find(v); if (f == have.end()) { fail("hist-count", "histogram " + show(name) + " lost the value " + std::to_string(v) + where); break; } have.erase(f); }
                                for (double v : h.maybe) { auto f = have.find(v); if (f != have.end()) have.erase(f); }
                                if (!have.empty()) fail("hist-count", "histogram " + show(name) + " holds the value " + std::to_string(*have.begin()) + ", which was not stored" + where);
                            }
                        }
                        if (h.exists && got != asked) fail("hist-missing", "histogram " + show(name) + " was asked for " + std::to_string(asked) + " times and returned " + std::to_string(got) + " times" + where);
                        if (!h.exists && got) fail("hist-unknown", "histogram " + show(name) + " exists although it was not to be created" + where);
                    }
                    // what stays
                    if (base.exists) {
                        for (auto &sy : seg.syncs) if (cfg_write) d = at(sy.first, sy.second, nullptr);
                        if (seg.closed && seg.write) d = at(seg.end_lo, seg.end_hi, nullptr);
                    }
                }
            }
            // names that nobody tracks
            for (auto &call : hist_calls) {
                if (call.inc != S.inc) continue;
                for (size_t r : call.results) if (hist[r].a == R_HIST && hist[r].b == OK && !names.count(hist[r].s0)) fail("hist-unknown", "histogram " + show(hist[r].s0) + " is not tracked");
            }
        }
    }

    // ------------------------------------------------------------ same outcome in every configuration (C03)
    void compare_incs() {
        map<string, string> first;
        int inc = -1;
        map<int, map<string, string>> by;
        map<int, map<string, std::multiset<string>>> getops;
        for (auto &e : hist) {
            if (e.type == EV_INC) inc = e.a;
            if (e.type != EV_RESULT || e.a == R_SYNC || e.a == R_HIST) continue;
            const string status = e.b == OK ? "success" : "error";
            if (e.a == R_GETOP) {
                string v = show(norm(e.f & 255, e.s0)) + "," + show(norm(e.f >> 8 & 255, e.s1)) + " " + status;
                if (e.b == OK) v += " type " + std::to_string(e.f >> 16 & 255) + " " + show(norm(e.f >> 16 & 255, e.s2));
                getops[inc]["range reads of the whole program"].insert(v);
                continue;
            }
            const string key = string(e.a == R_PUT ? "PUT" : e.a == R_GET ? "GET" : "DELETE") + " op " + std::to_string(e.d >> 24) + "." + std::to_string(e.d >> 2 & 0x3fffff) + " " + std::to_string(e.d & 3) + std::to_string(e.e & 3);
            string v = status;
            if (e.a == R_DEL) v = "";
            if (e.a == R_GET && e.b == OK) v += " type " + std::to_string(e.f >> 16 & 255) + " " + show(norm(e.f >> 16 & 255, e.s2)) + " " + std::to_string(std::hash<string>()(norm(e.f >> 16 & 255, e.s2)));
            by[inc][key] = v;
        }
        if (by.empty()) return;
        const int base = by.begin()->first;
        for (auto &b : by) {
            stats["configs_compared"]++;
            for (auto *side : {&by[base], &b.second})
                for (auto &kv : *side) {
                    const string x = by[base].count(kv.first) ? by[base][kv.first] : "no result", y = b.second.count(kv.first) ? b.second[kv.first] : "no result";
                    stats["results_compared"]++;
                    if (x != y) { fail("config-differs", kv.first + ": " + x + " in configuration " + std::to_string(base) + ", " + y + " in configuration " + std::to_string(b.first)); return; }
                }
            for (auto &kv : getops[base]) if (getops[b.first][kv.first] != kv.second) {
                string m = kv.first + " in configuration " + std::to_string(base) + ":";
                for (auto &s : kv.second) m += " [" + s + "]";
                m += " in configuration " + std::to_string(b.first) + ":";
                for (auto &s : getops[b.first][kv.first]) m += " [" + s + "]";
                fail("config-differs", m);
                return;
            }
        }
    }

    // ------------------------------------------------------------ memory left after identical cycles (C17)
    void check_leaks() {
        int inc = -1;
        map<int, vector<const Event *>> l;
        for (auto &e : hist) {
            if (e.type == EV_INC) inc = e.a;
            if (e.type == EV_LEAK) l[inc].push_back(&e);
        }
        if (plan.get(-1, "cycles", "0") != "1") return;
        for (auto &kv : l) {
            if (kv.second.size() < 3) continue;
            stats["cycles_compared"] += kv.second.size();
            const Event *a = kv.second[1], *b = kv.second.back();
            // the first session and single steps may differ (LevelDB starts its compaction thread at some point); a leak grows in each
            bool each = true;
            for (size_t i = 2; i < kv.second.size(); i++) if (kv.second[i]->a <= kv.second[i - 1]->a) each = false;
            if (each) { fail("leak", "repeating the same session leaves more objects each time: " + std::to_string(a->a) + " (" + std::to_string(a->b) + " bytes) after the second, " + std::to_string(b->a) + " (" + std::to_string(b->b) + " bytes) after session " + std::to_string(kv.second.size())); return; }
        }
    }

    void more() {
        check_getops();
        if (fails.empty()) check_hists();
        if (fails.empty() && plan.prop == "C03") compare_incs();
        if (fails.empty()) check_leaks();
    }
