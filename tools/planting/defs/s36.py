prop='C12'
needs='a bulk of PUTs in which one is refused by a transform function and a later one belongs to a histogram'
breaks='the values of a request that follow a refused PUT are stored but not counted in the histogram'
edits=[('src/datastore/datastore.cpp','''        for(std::size_t i = 0; i < req->count; i++) {
            if (res->statuses[i] == DATASTORE_SUCCESS) {
                switch (req->predicates[i].data_type()) {''','''        for(std::size_t i = 0; (i < req->count) && (res->statuses[i] == DATASTORE_SUCCESS); i++) {
            {
                switch (req->predicates[i].data_type()) {''')]
demo=r'''
// every value that was stored is counted
#include "common.hpp"
#include "utils/memory.hpp"

static int copy(void *src, size_t n, void **dst, size_t *dn, void *) {
    *dst = alloc(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

static int refuse(void *src, size_t n, void **dst, size_t *dn, void *x) {
    return (*(char *) src == '!')?HXHIM_ERROR:copy(src, n, dst, dn, x);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_BYTE, refuse, nullptr, copy, nullptr);
    hxhim_add_histogram_track_predicate(&hx, "h", 1);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    double values[] = {1, 2, 3, 4};
    const char *subjects[] = {"0:a", "0:b", "0:c", "0:d"};
    for (int i = 0; i < 4; i++) {
        if (i == 2) {
            put(&hx, "0:x", "p", "!no");
        }
        hxhim::PutDouble(&hx, ptr(subjects[i]), 3, HXHIM_DATA_BYTE, ptr("h"), 1, HXHIM_DATA_BYTE, &values[i], HXHIM_PUT_SPO);
    }
    expect(finish(hxhim::FlushPuts(&hx)) == 4, "PUT");
    expect(hxhim::Histogram(&hx, 0, "h", 1) == HXHIM_SUCCESS, "HISTOGRAM");
    hxhim::Results *res = hxhim::FlushHistograms(&hx);
    double *buckets = nullptr;
    std::size_t *counts = nullptr, size = 0, total = 0;
    res->GoToHead();
    expect(res->Histogram(nullptr, nullptr, &buckets, &counts, &size) == HXHIM_SUCCESS, "HISTOGRAM result");
    for (std::size_t i = 0; i < size; i++) {
        total += counts[i];
    }
    expect(total == 4, "4 values stored, " + std::to_string(total) + " counted");
    hxhim::Results::Destroy(res);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
