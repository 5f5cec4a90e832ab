prop='C12'
needs='a PUT of a tracked predicate that the datastore could not store (here: its value cannot be encoded)'
breaks='the value of a PUT that failed is counted in the histogram'
edits=[('src/datastore/datastore.cpp','''            if (res->statuses[i] == DATASTORE_SUCCESS) {
                switch (req->predicates[i].data_type()) {''','''            if (res->statuses[i] != DATASTORE_UNSET) {
                switch (req->predicates[i].data_type()) {''')]
demo=r'''
// only values that were stored are counted
#include "common.hpp"

static int refuse_negative(void *src, const size_t n, void **dst, size_t *dn, void *) {
    double d;
    memcpy(&d, src, sizeof(d));
    if (d == 2) return HXHIM_ERROR;
    *dst = ::operator new(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_DOUBLE, refuse_negative, nullptr, refuse_negative, nullptr);
    hxhim_add_histogram_track_predicate(&hx, "tracked", 7);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    double v[3] = {1, 2, 3};
    const std::string s[3] = {"0:a", "0:b", "0:c"};
    for (int i = 0; i < 3; i++) {
        hxhim::Put(&hx, ptr(s[i]), s[i].size(), HXHIM_DATA_BYTE, (void *) "tracked", 7, HXHIM_DATA_BYTE, &v[i], sizeof(double), HXHIM_DATA_DOUBLE, HXHIM_PUT_SPO);
    }
    hxhim::Results *res = hxhim::FlushPuts(&hx);
    expect(count(res, HXHIM_SUCCESS) == 2 && count(res, HXHIM_ERROR) == 1, "one PUT fails");
    hxhim::Results::Destroy(res);
    hxhim::Histogram(&hx, 0, "tracked", 7);
    res = hxhim::FlushHistograms(&hx);
    expect(res && res->Size() == 1, "one histogram");
    res->GoToHead();
    double *buckets = nullptr;
    size_t *counts = nullptr, size = 0, total = 0;
    expect(res->Histogram(nullptr, nullptr, &buckets, &counts, &size) == HXHIM_SUCCESS, "HISTOGRAM");
    for (size_t i = 0; i < size; i++) total += counts[i];
    expect(total == 2, "counted " + std::to_string(total));
    hxhim::Results::Destroy(res);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
