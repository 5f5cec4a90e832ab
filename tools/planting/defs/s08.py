prop='C16'
needs='a PUT with a permutation other than SPO, a hash that places that order on another datastore, and more than one datastore'
breaks='all permutations of a triple are sent to the datastore of the SPO order, so most are not found by a GET in their own order'
edits=[('src/hxhim/ops/impl.cpp','''    for(std::size_t i = 0; i < HXHIM_PUT_PERMUTATIONS_COUNT; i++) {
        if (!(permutations''','''    int rs_id = -1;
    for(std::size_t i = 0; i < HXHIM_PUT_PERMUTATIONS_COUNT; i++) {
        if (!(permutations'''),('src/hxhim/ops/impl.cpp','''        const int rs_id = hxhim_hash(hx,
                                     sub->data(),  sub->size(),
                                     pred->data(), pred->size());

        hash.end = ::Stats::now();
        if (rs_id < 0) {
            return HXHIM_ERROR;
        }
''','''        // (permutations that start with the same element stay together)
        if (selected.empty() || (selected.back().sub != sub)) {
            rs_id = hxhim_hash(hx,
                               sub->data(),  sub->size(),
                               pred->data(), pred->size());
        }

        hash.end = ::Stats::now();
        if (rs_id < 0) {
            return HXHIM_ERROR;
        }
''')]
demo=r'''
// every permutation is readable in its own order when subject and predicate decide the placement
#include "common.hpp"

static int by_pair(hxhim_t *, void *s, const size_t sn, void *p, const size_t pn, void *) {
    unsigned h = 0;
    for (size_t i = 0; i < sn; i++) h += ((unsigned char *) s)[i];
    for (size_t i = 0; i < pn; i++) h += ((unsigned char *) p)[i] * 2;
    return h % 4;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.per_server = 4;
    o.hash = by_pair;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string s = "a", p = "b", v = "d";
    put(&hx, s, p, v, (hxhim_put_permutation_t) (HXHIM_PUT_SPO | HXHIM_PUT_SOP | HXHIM_PUT_PSO | HXHIM_PUT_POS | HXHIM_PUT_OSP | HXHIM_PUT_OPS));
    expect(finish(hxhim::FlushPuts(&hx)) == 6, "6 results");
    const std::string *e[3] = {&s, &p, &v};
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            if (i != j) {
                std::string got;
                expect(get(&hx, *e[i], *e[j], got) && got == *e[3 - i - j], "permutation " + *e[i] + *e[j] + " is not readable");
            }
        }
    }
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
