prop='C20'
needs='a LevelDB datastore and a decoding function that refuses what is stored'
breaks='a GET reports success although the stored object was refused by the decoding function'
edits=[('src/datastore/LevelDB.cpp','''                // decode the object
                if (decode(callbacks, Blob((void *) value.data(), value_len, object_type),
                           &object, &object_len) == DATASTORE_SUCCESS) {
                    event.size += object_len;
                    status = DATASTORE_SUCCESS;
                    mlog(LEVELDB_INFO, "Rank %d LevelDB GET decode success", rank);
''','''                // decode the object
                status = DATASTORE_SUCCESS;
                if (decode(callbacks, Blob((void *) value.data(), value_len, object_type),
                           &object, &object_len) == DATASTORE_SUCCESS) {
                    event.size += object_len;
                    mlog(LEVELDB_INFO, "Rank %d LevelDB GET decode success", rank);
''')]
demo=r'''
// a GET of something the decoding function refuses is an error
#include "common.hpp"
#include "utils/memory.hpp"

static int copy(void *src, size_t n, void **dst, size_t *dn, void *) {
    *dst = alloc(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

static int refuse(void *src, size_t n, void **dst, size_t *dn, void *x) {
    return (*(char *) src == '!')?HXHIM_ERROR:copy(src, n, dst, dn, x);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.leveldb = 1;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_BYTE, copy, nullptr, refuse, nullptr);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    put(&hx, "0:a", "p", "fine");
    put(&hx, "0:b", "p", "!not");
    expect(finish(hxhim::FlushPuts(&hx)) == 2, "PUT");
    for (const char *s : {"0:a", "0:b"}) {
        hxhim::Get(&hx, ptr(s), 3, HXHIM_DATA_BYTE, ptr("p"), 1, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE);
        expect(finish(hxhim::FlushGets(&hx)) == (s[2] == 'a'), "only what can be decoded is found");
    }
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
