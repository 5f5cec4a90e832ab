prop='C11'
needs='a DELETE of a pair that does not exist, in an in-memory datastore that has a pair with a greater key'
breaks='deleting a pair that does not exist deletes the next one instead, and reports success'
edits=[('src/datastore/InMemory.cpp','''            decltype(db)::const_iterator it = db.find((std::string) key);
            if (it != db.end()) {
                db.erase(it);''','''            decltype(db)::const_iterator it = db.lower_bound((std::string) key);
            if ((it != db.end()) && (it->first.size() == key.size())) {
                db.erase(it);''')]
demo=r'''
// deleting something that does not exist changes nothing
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    put(&hx, "0:b", "p", "v");
    expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT");
    del(&hx, "0:a", "p");
    finish(hxhim::FlushDeletes(&hx));
    std::string got;
    expect(get(&hx, "0:b", "p", got) && got == "v", "another pair was deleted");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
