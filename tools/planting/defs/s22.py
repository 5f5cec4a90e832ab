prop='C22'
needs='a hash name that does not exist, given to a setter that refuses it'
breaks='the refused name replaces the name of the hash in use, which is no longer that of its function'
edits=[('src/hxhim/options.cpp','''    const std::string hash_name = name;
    std::unordered_map<std::string, hxhim_hash_t>::const_iterator it = hxhim::config::HASHES.find(hash_name);
    if (it == hxhim::config::HASHES.end()) {
        return HXHIM_ERROR;
    }

    hx->p->hash.name = std::move(hash_name);
''','''    hx->p->hash.name = name;
    std::unordered_map<std::string, hxhim_hash_t>::const_iterator it = hxhim::config::HASHES.find(hx->p->hash.name);
    if (it == hxhim::config::HASHES.end()) {
        return HXHIM_ERROR;
    }

''')]
demo=r'''
// a setter that refuses its value leaves the earlier one in force
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    expect(hxhim_set_hash_name(&hx, "no such hash") == HXHIM_ERROR, "an unknown hash has to be refused");
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const char *name = nullptr;
    hxhim_hash_t func = nullptr;
    expect(hxhim::GetHash(&hx, &name, &func, nullptr) == HXHIM_SUCCESS, "GetHash");
    expect(func == place && std::string(name) == "place", "the name of the hash in use has to be that of its function");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
