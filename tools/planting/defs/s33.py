prop='C03'
needs='the sum placement hash, more than one datastore and keys with bytes above 0x7f'
breaks='with one of the placement hashes operations on keys with high bytes are refused that work with all others'
edits=[('src/hxhim/hash.cpp','''    int dst = 0;
    for(std::size_t i = 0; i < subject_len; i++) {
        dst += (int) (uint8_t) ((char *) subject)[i];
    }

    for(std::size_t i = 0; i < predicate_len; i++) {
        dst += (int) (uint8_t) ((char *) predicate)[i];
    }

    return dst % count;
''','''    int dst = 0;
    const char *bytes = (const char *) subject;
    for(std::size_t i = 0; i < subject_len; i++) {
        dst += bytes[i];
    }

    bytes = (const char *) predicate;
    for(std::size_t i = 0; i < predicate_len; i++) {
        dst += bytes[i];
    }

    return dst % (int) count;
''')]
demo=r'''
// what is stored and found does not depend on the placement hash
#include "common.hpp"

#include "hxhim/hash.h"

static void run(const char *hash) {
    hxhim_t hx;
    Opts o;
    o.per_server = 3;
    set_options(&hx, o);
    expect(hxhim_set_hash_name(&hx, hash) == HXHIM_SUCCESS, "hash");
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    for (int i = 1; i < 256; i++) {
        const std::string s(1, (char) i);
        expect(put(&hx, s, "p", "o") == HXHIM_SUCCESS, std::string("PUT is accepted with ") + hash);
    }
    expect(finish(hxhim::FlushPuts(&hx)) == 255, std::string("PUT with ") + hash);
    for (int i = 1; i < 256; i++) {
        const std::string s(1, (char) i);
        expect(hxhim::Get(&hx, ptr(s), 1, HXHIM_DATA_BYTE, ptr("p"), 1, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE) == HXHIM_SUCCESS,
               std::string("GET is accepted with ") + hash);
    }
    expect(finish(hxhim::FlushGets(&hx)) == 255, std::string("GET with ") + hash);
    hxhim::Close(&hx);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    for (const char *h : {"DATASTORE_0", "RANK_MOD_DATASTORES", "UTHASH_BER", "SUM_MOD_DATASTORES"}) {
        run(h);
    }
    MPI_Finalize();
    return 0;
}
'''
