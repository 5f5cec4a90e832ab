prop='C10'
needs='a LOWEST GETOP on LevelDB that asks for more records than match, with other pairs after the last match'
breaks='LOWEST on LevelDB only checks the prefix of the first record, and goes on with pairs that do not match'
edits=[('src/datastore/LevelDB.cpp','''                it->Seek(seek);

                if (it->Valid()) {
                    for(std::size_t j = 0;
                        (j < req->num_recs[i]) &&
                        it->Valid() &&
                        it->key().starts_with(prefix);
                        j++) {
''','''                it->Seek(seek);

                if (it->Valid() && it->key().starts_with(prefix)) {
                    for(std::size_t j = 0;
                        (j < req->num_recs[i]) &&
                        it->Valid();
                        j++) {
''')]
demo=r'''
// LOWEST only returns pairs with the prefix
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.leveldb = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    for (const char *s : {"0a", "0b", "0c"}) put(&hx, s, "p", "v");
    expect(finish(hxhim::FlushPuts(&hx)) == 3, "PUTs");
    std::string s = "0b", p = "p";
    hxhim::GetOp(&hx, ptr(s), 2, HXHIM_DATA_BYTE, ptr(p), 1, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE, 5, HXHIM_GETOP_LOWEST);
    expect(finish(hxhim::FlushGetOps(&hx)) == 1, "only one pair matches");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
