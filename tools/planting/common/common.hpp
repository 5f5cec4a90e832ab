// helpers shared by the demonstrations (each folder has its own copy)
#ifndef DEMO_COMMON_HPP
#define DEMO_COMMON_HPP

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <mpi.h>
#include <unistd.h>

#include "hxhim/hxhim.hpp"
#include "hxhim/options.h"

static int g_rank = 0, g_size = 1;
static std::atomic<bool> g_active{false}; // whether injected delays/faults are on

static void pause_ms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

static void start_mpi(int *argc, char ***argv) {
    int provided = 0;
    MPI_Init_thread(argc, argv, MPI_THREAD_MULTIPLE, &provided);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank);
    MPI_Comm_size(MPI_COMM_WORLD, &g_size);
}

[[noreturn]] static void fail(const std::string &what) {
    fprintf(stderr, "rank %d: FAILED: %s\n", g_rank, what.c_str());
    fflush(nullptr);
    _exit(1);
}

static void expect(bool ok, const std::string &what) { if (!ok) fail(what); }

// everything goes to the datastore whose number is in front of the subject ("2:...")
static int place(hxhim_t *, void *s, const size_t, void *, const size_t, void *) {
    return *(const char *) s - '0';
}

struct Opts {
    size_t client = 1, server = 1, per_server = 1, listeners = 1, ops = 100, size = 0, async = 0;
    hxhim_hash_t hash = place;
    int leveldb = 0, create = 1; // otherwise in memory
    std::string name = "ds";
};

static std::string scratch() { return getenv("HXHIM_DEMO_DIR"); }

static void set_options(hxhim_t *hx, const Opts &o) {
    expect(hxhim::Init(hx, MPI_COMM_WORLD) == HXHIM_SUCCESS, "Init");
    hxhim_set_debug_level(hx, MLOG_EMERG);
    hxhim_set_client_ratio(hx, o.client);
    hxhim_set_server_ratio(hx, o.server);
    hxhim_set_datastores_per_server(hx, o.per_server);
    if (o.leveldb) {
        hxhim_set_datastore_leveldb(hx, o.create);
    }
    else {
        hxhim_set_datastore_in_memory(hx);
    }
    hxhim_set_datastore_name(hx, (scratch() + "/db").c_str(), o.name.c_str(), "");
    if (g_size > 1) {
        hxhim_set_transport_mpi(hx, o.listeners);
    }
    else {
        hxhim_set_transport_null(hx);
    }
    hxhim_set_hash_function(hx, "place", o.hash, nullptr);
    hxhim_set_start_async_puts_at(hx, o.async);
    hxhim_set_maximum_ops_per_request(hx, o.ops);
    hxhim_set_maximum_size_per_request(hx, o.size);
    hxhim_set_histogram_first_n(hx, 1);
    hxhim_set_histogram_bucket_gen_name(hx, "10_BUCKETS");
}

// strings have to stay alive until the flush, so they are kept
static void *ptr(const std::string &s) {
    static std::set<std::string> kept;
    return (void *) kept.insert(s).first->data();
}

static int put(hxhim_t *hx, const std::string &s, const std::string &p, const std::string &o,
               hxhim_put_permutation_t perm = HXHIM_PUT_SPO) {
    return hxhim::Put(hx, ptr(s), s.size(), HXHIM_DATA_BYTE, ptr(p), p.size(), HXHIM_DATA_BYTE,
                      ptr(o), o.size(), HXHIM_DATA_BYTE, perm);
}

static int del(hxhim_t *hx, const std::string &s, const std::string &p) {
    return hxhim::Delete(hx, ptr(s), s.size(), HXHIM_DATA_BYTE, ptr(p), p.size(), HXHIM_DATA_BYTE);
}

// number of results with a status
static size_t count(hxhim::Results *res, int status) {
    size_t n = 0;
    for (res->GoToHead(); res->ValidIterator(); res->GoToNext()) {
        int st = -1;
        res->Status(&st);
        n += st == status;
    }
    return n;
}

static size_t finish(hxhim::Results *res, int status = HXHIM_SUCCESS) {
    expect(res, "no results");
    const size_t n = count(res, status);
    hxhim::Results::Destroy(res);
    return n;
}

// GET one pair; false if it is absent
static bool get(hxhim_t *hx, const std::string &s, const std::string &p, std::string &o) {
    hxhim::Get(hx, ptr(s), s.size(), HXHIM_DATA_BYTE, ptr(p), p.size(), HXHIM_DATA_BYTE, HXHIM_DATA_BYTE);
    hxhim::Results *res = hxhim::FlushGets(hx);
    expect(res && res->Size() == 1, "a GET has to have one result");
    res->GoToHead();
    int st = -1;
    res->Status(&st);
    if (st == HXHIM_SUCCESS) {
        void *d = nullptr;
        size_t n = 0;
        res->Object(&d, &n, nullptr);
        o.assign((char *) d, n);
    }
    hxhim::Results::Destroy(res);
    return st == HXHIM_SUCCESS;
}

#endif
