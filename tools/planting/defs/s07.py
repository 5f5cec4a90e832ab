prop='C14'
needs='a hash function that depends on its extra arguments, changed to one with other arguments'
breaks='ChangeHash keeps the arguments of the previous hash function, so pairs are placed by the wrong rule'
edits=[('src/hxhim/hxhim.cpp','''    hx->p->hash.func = func;
    hx->p->hash.args = args;

    // change datastores''','''    hx->p->hash.func = func;
    if (!hx->p->hash.args) {
        hx->p->hash.args = args;
    }

    // change datastores''')]
demo=r'''
// the arguments of the new hash function are used after ChangeHash
#include "common.hpp"

static int by_arg(hxhim_t *, void *, const size_t, void *, const size_t, void *arg) { return *(int *) arg; }

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.per_server = 2;
    static int first = 0, second = 1;
    set_options(&hx, o);
    hxhim_set_hash_function(&hx, "first", by_arg, &first);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    hxhim::Results::Destroy(hxhim::ChangeHash(&hx, "second", by_arg, &second));
    const std::string s = "s", p = "p", v = "value";
    put(&hx, s, p, v);
    hxhim::Results *res = hxhim::FlushPuts(&hx);
    expect(res && res->Size() == 1, "1 result");
    res->GoToHead();
    int rs = -1;
    res->RangeServer(&rs);
    expect(rs == 1, "the PUT went to datastore " + std::to_string(rs));
    hxhim::Results::Destroy(res);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
