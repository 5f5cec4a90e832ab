// MPI over the simulated network: messages of one sender to one receiver with
// one tag stay in order, everything else may be delayed and reordered.
#include "simmpi.hpp"
#include "mpi/mpi.h"
#include "real.hpp"
#include "sim.hpp"

#include <cstdarg>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace sim;

struct Msg;
struct SimMpiRequest_ {
    uint32_t magic = 0x51A1;
    bool recv = false, coll = false, done = false, freed = false, cancelled = false;
    int  owner = -1;
    void *buf = nullptr;
    size_t cap = 0;
    int  src = 0, tag = 0, comm = 0;
    MPI_Status st{};
    int  poller = -1;
    Msg *msg = nullptr;              // send: message still to be taken
    std::shared_ptr<void> keep;
};
struct Msg {
    int src, dst, tag, comm;
    uint64_t seq;
    bool arrived = false;
    bool captured = false;
    size_t len = 0;
    std::vector<char> data;
    const void *user = nullptr;
    SimMpiRequest_ *sreq = nullptr;  // completes when the message is taken
};
struct SimMpiMessage_ { Msg *m; };

namespace {
int nranks = 1;
uint32_t p_delay, max_delay, p_rdv, p_match;
uint64_t msg_seq = 0;
struct Rank {
    std::list<SimMpiRequest_ *> posted;
    std::list<Msg *> unexpected;
    std::map<int, uint64_t> coll_seq;
    int dups = 0;
    bool init = false, fini = false;
};
std::vector<Rank> *ranks;
std::map<std::vector<int>, uint64_t> *last_arrival;    // per src,dst,tag,comm
std::map<std::vector<int>, std::list<Msg *>> *flying;  // per src,dst,comm, in send order

const char *err_name(int e) { return e == MPI_ERR_RANK ? "invalid rank" : e == MPI_ERR_COMM ? "invalid communicator" : "invalid argument"; }
int fail(int e, const char *fn) { violation("mpi-error", "%s: %s (MPI would abort the job)", fn, err_name(e)); }

inline int dt_size(MPI_Datatype d) { return d >> 8; }
inline bool comm_ok(MPI_Comm c) { return c > 0; }
inline bool is_self(MPI_Comm c) { return c == MPI_COMM_SELF || (c & 0x1000); }
int comm_size(MPI_Comm c) { return is_self(c) ? 1 : nranks; }
int comm_rank(MPI_Comm c) { return is_self(c) ? 0 : sim::rank(); }
Rank &me() {
    const int r = sim::rank();
    if (r < 0) harness_error("MPI call outside a rank");
    return (*ranks)[r];
}
int self_world(MPI_Comm c, int r) { return is_self(c) ? sim::rank() : r; }

void complete(SimMpiRequest_ *r) {
    r->done = true;
    hb_release(r);
    if (r->poller >= 0) poll_ready(r->poller);
    wake(r);
    progress();
    if (r->freed) delete r;
}

bool matches(const SimMpiRequest_ *r, const Msg *m) {
    return r->comm == m->comm && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}

void drop_flying(Msg *m) { (*flying)[{m->src, m->dst, m->comm}].remove(m); }

void capture(Msg *m) {
    if (m->captured) return;
    m->data.assign((const char *) m->user, (const char *) m->user + m->len);
    m->captured = true;
}

void deliver(Msg *m, SimMpiRequest_ *r) {
    capture(m);
    if (r->freed)
        violation("mpi-stale-recv", "a receive of rank %d that was freed while pending (tag %d) swallowed a message of %zu bytes from rank %d",
                  r->owner, m->tag, m->len, m->src);
    if (m->len > r->cap)
        violation("mpi-truncate", "message of %zu bytes from rank %d tag %d was received by rank %d into a buffer of %zu bytes",
                  m->len, m->src, m->tag, r->owner, r->cap);
    if (m->len) memcpy(r->buf, m->data.data(), m->len);
    r->st.MPI_SOURCE = m->src;
    r->st.MPI_TAG = m->tag;
    r->st.MPI_ERROR = MPI_SUCCESS;
    r->st.sim_bytes = (int) m->len;
    r->st.sim_cancelled = 0;
    hb_acquire(m);
    trace_mix(mix2(m->src * 131 + m->dst, m->tag * 7919 + m->len));
    log("message %d->%d tag %d %zu bytes received", m->src, m->dst, m->tag, m->len);
    drop_flying(m);
    if (m->sreq) {
        m->sreq->msg = nullptr;
        complete(m->sreq);
    }
    complete(r);
    delete m;
}

// would a message sent earlier by the same rank have to match first?
bool overtakes(const SimMpiRequest_ *r, const Msg *m) {
    if (r->tag != MPI_ANY_TAG) return false;
    for (Msg *o : (*flying)[{m->src, m->dst, m->comm}]) {
        if (o == m) return false;
        if (matches(r, o)) return true;
    }
    return false;
}

void arrive(Msg *m) {
    m->arrived = true;
    Rank &d = (*ranks)[m->dst];
    for (auto it = d.posted.begin(); it != d.posted.end(); ++it) {
        SimMpiRequest_ *r = *it;
        if (matches(r, m) && !overtakes(r, m)) {
            d.posted.erase(it);
            deliver(m, r);
            return;
        }
    }
    d.unexpected.push_back(m);
    progress();
}

Msg *find_unexpected(SimMpiRequest_ *r) {
    Rank &d = (*ranks)[r->owner];
    std::vector<Msg *> c;
    for (Msg *m : d.unexpected) {
        if (!matches(r, m) || overtakes(r, m)) continue;
        bool seen = false;
        for (Msg *o : c) if (o->src == m->src) seen = true;
        if (!seen) c.push_back(m);
    }
    if (c.empty()) return nullptr;
    size_t i = 0;
    if (c.size() > 1) {
        sh->c.wildcard_multi++;
        i = choose(K_MATCH, [&](uint64_t x) { return (x & 0xffff) < p_match ? (x >> 16) % c.size() : 0; }) % c.size();
    }
    return c[i];
}

void post_recv(SimMpiRequest_ *r) {
    Msg *m = find_unexpected(r);
    if (m) {
        (*ranks)[r->owner].unexpected.remove(m);
        deliver(m, r);
    }
    else (*ranks)[r->owner].posted.push_back(r);
}

SimMpiRequest_ *start_send(const void *buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm comm, bool sync, const char *fn) {
    if (!comm_ok(comm)) fail(MPI_ERR_COMM, fn);
    if (count < 0 || tag < 0) fail(MPI_ERR_COUNT, fn);
    if (dst < 0 || dst >= comm_size(comm)) fail(MPI_ERR_RANK, fn);
    const size_t len = (size_t) count * dt_size(dt);
    SimMpiRequest_ *r = new SimMpiRequest_;
    r->owner = sim::rank();
    Msg *m = new Msg;
    m->src = sim::rank();
    m->dst = self_world(comm, dst);
    m->tag = tag;
    m->comm = comm;
    m->seq = ++msg_seq;
    m->len = len;
    m->user = buf;
    sh->c.msgs++;
    sh->c.msg_bytes += len;
    hb_release(m);
    if (on_mpi_send) on_mpi_send(m->src, m->dst, tag, buf, len);
    const bool rdv = sync || flip(K_SENDMODE, p_rdv);
    (*flying)[{m->src, m->dst, m->comm}].push_back(m);
    if (rdv) {
        sh->c.msg_rendezvous++;
        m->sreq = r;
        r->msg = m;
    }
    else {
        capture(m);
        r->done = true;
    }
    uint64_t delay = p_delay ? choose(K_DELAY, [](uint64_t x) -> uint64_t {
        return (x & 0xffff) < p_delay ? 1 + (x >> 16) % (max_delay ? max_delay : 1) : 0; }) : 0;
    uint64_t &last = (*last_arrival)[{m->src, m->dst, m->tag, m->comm}];
    uint64_t at = now_ns() + delay * 1000;
    if (at < last) at = last;
    log("message %d->%d tag %d %zu bytes sent%s, arrives at %.3fms", m->src, m->dst, tag, len, rdv ? " (rendezvous)" : "", at / 1e6);
    if (at > now_ns()) {
        sh->c.msg_delayed++;
        last = at;
        at_time(at, [m]() { arrive(m); });
    }
    else arrive(m);
    return r;
}

SimMpiRequest_ *start_recv(void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm comm, const char *fn) {
    if (!comm_ok(comm)) fail(MPI_ERR_COMM, fn);
    if (count < 0) fail(MPI_ERR_COUNT, fn);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= comm_size(comm))) fail(MPI_ERR_RANK, fn);
    SimMpiRequest_ *r = new SimMpiRequest_;
    r->recv = true;
    r->owner = sim::rank();
    r->buf = buf;
    r->cap = (size_t) count * dt_size(dt);
    r->src = src == MPI_ANY_SOURCE ? src : self_world(comm, src);
    r->tag = tag;
    r->comm = comm;
    post_recv(r);
    return r;
}

void check_req(SimMpiRequest_ *r, const char *fn) {
    if (r->magic != 0x51A1) violation("mpi-error", "%s on something that is not a live request", fn);
}
void finish_req(MPI_Request *req, MPI_Status *st) {
    SimMpiRequest_ *r = *req;
    hb_acquire(r);
    if (st) {
        if (r->recv) *st = r->st;
        else { *st = MPI_Status{}; }
        st->sim_cancelled = r->cancelled;
    }
    r->magic = 0;
    delete r;
    *req = MPI_REQUEST_NULL;
}
void empty_status(MPI_Status *st) {
    if (st) { *st = MPI_Status{}; st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; }
}

// ---- collectives
struct Coll {
    std::string kind;
    int arrived = 0;
    std::vector<std::vector<char>> in;
    bool done = false;
    std::vector<SimMpiRequest_ *> reqs;
};
std::map<std::pair<int, uint64_t>, std::shared_ptr<Coll>> *colls;

std::shared_ptr<Coll> enter(const char *kind, MPI_Comm comm, const void *in, size_t len) {
    if (!comm_ok(comm)) fail(MPI_ERR_COMM, kind);
    const int n = comm_size(comm);
    const int key = is_self(comm) ? comm * 4096 + sim::rank() + (1 << 24) : comm;
    auto &c = (*colls)[{key, me().coll_seq[key]++}];
    if (!c) {
        c = std::make_shared<Coll>();
        c->kind = kind;
        c->in.resize(n);
    }
    if (c->kind != kind)
        violation("mpi-collective", "rank %d calls %s while others are in %s", sim::rank(), kind, c->kind.c_str());
    c->in[comm_rank(comm)].assign((const char *) in, (const char *) in + len);
    hb_release(c.get());
    log("%s entered (%d of %d)", kind, c->arrived + 1, n);
    std::shared_ptr<Coll> ret = c;
    if (++ret->arrived == n) {
        ret->done = true;
        wake(ret.get());
        for (SimMpiRequest_ *r : ret->reqs) complete(r);
        progress();
    }
    return ret;
}
void leave(std::shared_ptr<Coll> c) {
    while (!c->done) wait_on(c.get(), c->kind.c_str());
    hb_acquire(c.get());
}

template <typename T> void reduce_t(T *a, const T *b, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = a[i] * b[i]; break;
        case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
        case MPI_MAX: if (a[i] < b[i]) a[i] = b[i]; break;
        case MPI_LAND: a[i] = a[i] && b[i]; break;
        case MPI_LOR: a[i] = a[i] || b[i]; break;
        case MPI_BAND: a[i] = (T) ((uint64_t) a[i] & (uint64_t) b[i]); break;
        case MPI_BOR: a[i] = (T) ((uint64_t) a[i] | (uint64_t) b[i]); break;
        default: harness_error("reduction %d not simulated", op);
    }
}
void reduce(void *a, const void *b, int n, MPI_Datatype dt, MPI_Op op) {
    switch (dt) {
        case MPI_DOUBLE: return reduce_t((double *) a, (const double *) b, n, op);
        case MPI_FLOAT: return reduce_t((float *) a, (const float *) b, n, op);
        case MPI_UNSIGNED: case MPI_UINT32_T: return reduce_t((uint32_t *) a, (const uint32_t *) b, n, op);
        case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: return reduce_t((uint64_t *) a, (const uint64_t *) b, n, op);
    }
    switch (dt_size(dt)) {
        case 1: return reduce_t((int8_t *) a, (const int8_t *) b, n, op);
        case 2: return reduce_t((int16_t *) a, (const int16_t *) b, n, op);
        case 4: return reduce_t((int32_t *) a, (const int32_t *) b, n, op);
        case 8: return reduce_t((int64_t *) a, (const int64_t *) b, n, op);
    }
    harness_error("datatype %d not simulated in reductions", dt);
}
} // namespace

namespace sim {
std::function<void(int, int, int, const void *, size_t)> on_mpi_send;
void mpi_configure(int n, uint32_t pd, uint32_t md, uint32_t pr, uint32_t pm) {
    nranks = n;
    p_delay = pd; max_delay = md; p_rdv = pr; p_match = pm;
    ranks = new std::vector<Rank>(n);
    last_arrival = new std::map<std::vector<int>, uint64_t>;
    flying = new std::map<std::vector<int>, std::list<Msg *>>;
    colls = new std::map<std::pair<int, uint64_t>, std::shared_ptr<Coll>>;
}
size_t mpi_pending_messages() {
    size_t n = 0;
    for (auto &f : *flying) n += f.second.size();
    return n;
}
void mpi_check_clean(const char *when) {
    for (auto &f : *flying)
        for (Msg *m : f.second)
            violation("mpi-leftover", "%s: a message of %zu bytes from rank %d to rank %d tag %d was never received", when, m->len, m->src, m->dst, m->tag);
    for (int i = 0; i < nranks; i++)
        for (SimMpiRequest_ *r : (*ranks)[i].posted)
            violation("mpi-leftover", "%s: rank %d still has a receive posted (tag %d%s)", when, i, r->tag, r->freed ? ", freed but never cancelled" : "");
}
}

extern "C" {
#define ENTER point(PT_MPI); Quiet quiet_
int MPI_Init_thread(int *, char ***, int, int *provided) { Quiet q; me().init = true; if (provided) *provided = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Init(int *, char ***) { Quiet q; me().init = true; return 0; }
int MPI_Initialized(int *f) { Quiet q; *f = me().init; return 0; }
int MPI_Finalize() { Quiet q; me().fini = true; return 0; }
int MPI_Finalized(int *f) { Quiet q; *f = me().fini; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Abort(MPI_Comm, int e) { violation("mpi-abort", "MPI_Abort(%d) was called", e); }
int MPI_Comm_rank(MPI_Comm c, int *r) { if (!comm_ok(c)) fail(MPI_ERR_COMM, "MPI_Comm_rank"); *r = comm_rank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { if (!comm_ok(c)) fail(MPI_ERR_COMM, "MPI_Comm_size"); *s = comm_size(c); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
    ENTER;
    leave(enter("MPI_Comm_dup", c, nullptr, 0));
    *out = (16 + me().dups++) | (is_self(c) ? 0x1000 : 0);
    return 0;
}
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? 0 : 3; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }
double MPI_Wtime() { point(PT_CLOCK); return now_ns() / 1e9; }

int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) {
    { ENTER; *r = start_send(b, n, d, dst, tag, c, false, "MPI_Isend"); }
    point(PT_MPI);
    return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) {
    ENTER;
    *r = start_send(b, n, d, dst, tag, c, true, "MPI_Issend");
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request *r) {
    ENTER;
    *r = start_recv(b, n, d, src, tag, c, "MPI_Irecv");
    return 0;
}
static void wait_req(MPI_Request *r, MPI_Status *st) {
    if (*r == MPI_REQUEST_NULL) return empty_status(st);
    check_req(*r, "MPI_Wait");
    while (!(*r)->done) wait_on(*r, (*r)->recv ? "MPI_Wait for a receive" : "MPI_Wait for a send");
    finish_req(r, st);
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) { ENTER; wait_req(r, st); return 0; }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) { ENTER; for (int i = 0; i < n; i++) wait_req(&r[i], st ? &st[i] : nullptr); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) {
    ENTER;
    MPI_Request r = start_send(b, n, d, dst, tag, c, false, "MPI_Send");
    wait_req(&r, nullptr);
    return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) {
    ENTER;
    MPI_Request r = start_send(b, n, d, dst, tag, c, true, "MPI_Ssend");
    wait_req(&r, nullptr);
    return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *st) {
    ENTER;
    MPI_Request r = start_recv(b, n, d, src, tag, c, "MPI_Recv");
    wait_req(&r, st);
    return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rd, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    ENTER;
    MPI_Request a = start_send(sb, sn, sd, dst, stag, c, false, "MPI_Sendrecv");
    MPI_Request b = start_recv(rb, rn, rd, src, rtag, c, "MPI_Sendrecv");
    wait_req(&a, nullptr);
    wait_req(&b, st);
    return 0;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
    point(PT_MPI);
    Quiet q;
    if (*r == MPI_REQUEST_NULL) { *flag = 1; empty_status(st); return 0; }
    check_req(*r, "MPI_Test");
    if (!(*r)->done) {
        (*r)->poller = thread_id();
        *flag = 0;
        poll_pause();
        // the caller sees the state as of the test; it will ask again
        if (*r && (*r)->magic == 0x51A1) (*r)->poller = -1;
        return 0;
    }
    finish_req(r, st);
    *flag = 1;
    poll_done();
    return 0;
}
int MPI_Testall(int n, MPI_Request r[], int *flag, MPI_Status st[]) {
    point(PT_MPI);
    Quiet q;
    for (int i = 0; i < n; i++)
        if (r[i] && !r[i]->done) { *flag = 0; poll_pause(); return 0; }
    for (int i = 0; i < n; i++) { if (r[i]) finish_req(&r[i], st ? &st[i] : nullptr); else empty_status(st ? &st[i] : nullptr); }
    *flag = 1;
    poll_done();
    return 0;
}
int MPI_Testany(int n, MPI_Request r[], int *idx, int *flag, MPI_Status *st) {
    point(PT_MPI);
    Quiet q;
    bool any = false;
    for (int i = 0; i < n; i++) {
        if (!r[i]) continue;
        any = true;
        if (r[i]->done) { finish_req(&r[i], st); *idx = i; *flag = 1; poll_done(); return 0; }
    }
    *idx = MPI_UNDEFINED;
    *flag = !any;
    if (any) poll_pause(); else empty_status(st);
    return 0;
}
int MPI_Testsome(int n, MPI_Request r[], int *out, int idx[], MPI_Status st[]) {
    point(PT_MPI);
    Quiet q;
    int k = 0;
    bool any = false;
    for (int i = 0; i < n; i++) {
        if (!r[i]) continue;
        any = true;
        if (r[i]->done) { finish_req(&r[i], st ? &st[k] : nullptr); idx[k++] = i; }
    }
    *out = any ? k : MPI_UNDEFINED;
    if (any && !k) poll_pause();
    if (k) poll_done();
    return 0;
}
int MPI_Waitany(int n, MPI_Request r[], int *idx, MPI_Status *st) {
    for (;;) {
        int flag = 0;
        MPI_Testany(n, r, idx, &flag, st);
        if (flag) return 0;
    }
}
int MPI_Cancel(MPI_Request *r) {
    ENTER;
    if (!*r) fail(MPI_ERR_REQUEST, "MPI_Cancel");
    check_req(*r, "MPI_Cancel");
    if ((*r)->recv && !(*r)->done) {
        (*ranks)[(*r)->owner].posted.remove(*r);
        (*r)->cancelled = true;
        complete(*r);
    }
    return 0;   // sends are not cancelled, as in most implementations
}
int MPI_Test_cancelled(const MPI_Status *s, int *flag) { *flag = s->sim_cancelled; return 0; }
int MPI_Request_free(MPI_Request *r) {
    ENTER;
    if (!*r) fail(MPI_ERR_REQUEST, "MPI_Request_free");
    check_req(*r, "MPI_Request_free");
    if ((*r)->done) { (*r)->magic = 0; delete *r; }
    else (*r)->freed = true;
    *r = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *st) {
    point(PT_MPI);
    Quiet q;
    if (!r) { *flag = 1; empty_status(st); return 0; }
    check_req(r, "MPI_Request_get_status");
    *flag = r->done;
    if (r->done) { if (st) *st = r->st; }
    else poll_pause();
    return 0;
}
static Msg *probe(int src, int tag, MPI_Comm c) {
    SimMpiRequest_ r;
    r.recv = true;
    r.owner = sim::rank();
    r.src = src == MPI_ANY_SOURCE ? src : self_world(c, src);
    r.tag = tag;
    r.comm = c;
    return find_unexpected(&r);
}
static void probe_status(Msg *m, MPI_Status *st) {
    if (!st) return;
    *st = MPI_Status{};
    st->MPI_SOURCE = m->src;
    st->MPI_TAG = m->tag;
    st->sim_bytes = (int) m->len;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    point(PT_MPI);
    Quiet q;
    Msg *m = probe(src, tag, c);
    *flag = m != nullptr;
    if (m) probe_status(m, st);
    else poll_pause();
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
    ENTER;
    Msg *m;
    while (!(m = probe(src, tag, c))) poll_pause();
    probe_status(m, st);
    return 0;
}
int MPI_Improbe(int src, int tag, MPI_Comm c, int *flag, MPI_Message *msg, MPI_Status *st) {
    point(PT_MPI);
    Quiet q;
    Msg *m = probe(src, tag, c);
    *flag = m != nullptr;
    if (!m) { poll_pause(); return 0; }
    probe_status(m, st);
    (*ranks)[sim::rank()].unexpected.remove(m);
    *msg = new SimMpiMessage_{m};
    return 0;
}
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message *msg, MPI_Status *st) {
    int flag = 0;
    while (!flag) MPI_Improbe(src, tag, c, &flag, msg, st);
    return 0;
}
int MPI_Imrecv(void *b, int n, MPI_Datatype d, MPI_Message *msg, MPI_Request *r) {
    ENTER;
    SimMpiRequest_ *q = new SimMpiRequest_;
    q->recv = true;
    q->owner = sim::rank();
    q->buf = b;
    q->cap = (size_t) n * dt_size(d);
    *r = q;
    deliver((*msg)->m, q);
    delete *msg;
    *msg = MPI_MESSAGE_NULL;
    return 0;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype d, MPI_Message *msg, MPI_Status *st) {
    MPI_Request r;
    MPI_Imrecv(b, n, d, msg, &r);
    return MPI_Wait(&r, st);
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n) {
    *n = s->sim_bytes % dt_size(d) ? MPI_UNDEFINED : s->sim_bytes / dt_size(d);
    return 0;
}
int MPI_Type_size(MPI_Datatype d, int *n) { *n = dt_size(d); return 0; }

int MPI_Barrier(MPI_Comm c) {
    { ENTER; leave(enter("MPI_Barrier", c, nullptr, 0)); }
    point(PT_MPI);
    return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) {
    ENTER;
    SimMpiRequest_ *q = new SimMpiRequest_;
    q->owner = sim::rank();
    q->coll = true;
    auto k = enter("MPI_Ibarrier", c, nullptr, 0);
    q->keep = k;
    if (k->done) q->done = true;
    else k->reqs.push_back(q);
    *r = q;
    return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) {
    ENTER;
    const size_t len = (size_t) n * dt_size(d);
    auto k = enter("MPI_Bcast", c, b, len);
    leave(k);
    if (k->in[root].size() != len) violation("mpi-collective", "MPI_Bcast with different sizes");
    memcpy(b, k->in[root].data(), len);
    return 0;
}
static void do_gather(const char *kind, const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) {
    const bool mine = root < 0 || root == comm_rank(c);
    const size_t rl = (size_t) rn * dt_size(rd);
    const void *in = sb;
    size_t len = (size_t) sn * dt_size(sd);
    if (sb == MPI_IN_PLACE) { in = (char *) rb + rl * comm_rank(c); len = rl; }
    auto k = enter(kind, c, in, len);
    leave(k);
    if (!mine) return;
    for (int i = 0; i < comm_size(c); i++) {
        if (k->in[i].size() > rl) violation("mpi-truncate", "%s with different sizes", kind);
        memcpy((char *) rb + i * rl, k->in[i].data(), k->in[i].size());
    }
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) {
    ENTER;
    do_gather("MPI_Gather", sb, sn, sd, rb, rn, rd, root, c);
    return 0;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c) {
    ENTER;
    do_gather("MPI_Allgather", sb, sn, sd, rb, rn, rd, -1, c);
    return 0;
}
static void do_reduce(const char *kind, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) {
    const size_t len = (size_t) n * dt_size(d);
    auto k = enter(kind, c, sb == MPI_IN_PLACE ? rb : sb, len);
    leave(k);
    if (root >= 0 && root != comm_rank(c)) return;
    std::vector<char> acc = k->in[0];
    for (int i = 1; i < comm_size(c); i++) {
        if (k->in[i].size() != len) violation("mpi-collective", "%s with different sizes", kind);
        reduce(acc.data(), k->in[i].data(), n, d, op);
    }
    memcpy(rb, acc.data(), len);
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) {
    ENTER;
    do_reduce("MPI_Reduce", sb, rb, n, d, op, root, c);
    return 0;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
    ENTER;
    do_reduce("MPI_Allreduce", sb, rb, n, d, op, -1, c);
    return 0;
}
}
