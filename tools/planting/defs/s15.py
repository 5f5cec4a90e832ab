prop='C10'
needs='a LOWEST GETOP with a predicate, and a subject of which the requested subject is a prefix (or records that have only the subject in common)'
breaks='GETOP LOWEST of LevelDB returns records that do not start with the requested subject and predicate'
edits=[('src/datastore/LevelDB.cpp','''                                                         req->predicates[i].data_type());
                ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
''','''                                                         req->predicates[i].data_type());
                ::leveldb::Slice prefix((char *) key.data(), subject_len); // need prefix for starts_with()
''')]
demo=r'''
// LOWEST only returns records with the requested prefix
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.leveldb = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string s = "0:s", p[4] = {"aa1", "aa2", "ab1", "b"};
    for (const std::string &x : p) put(&hx, s, x, x);
    expect(finish(hxhim::FlushPuts(&hx)) == 4, "PUTs");
    hxhim::GetOp(&hx, ptr(s), s.size(), HXHIM_DATA_BYTE, (void *) "aa", 2, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE, 10, HXHIM_GETOP_LOWEST);
    const size_t n = finish(hxhim::FlushGetOps(&hx));
    expect(n == 2, "records: " + std::to_string(n));
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
