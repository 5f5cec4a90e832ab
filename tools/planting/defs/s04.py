prop='C11'
needs='a LevelDB datastore that only had DELETEs since its last Sync, and a power loss after the next Sync'
breaks='Sync skips datastores without new PUTs, so deletions that were synced are not on disk: the deleted pair comes back after a power loss'
edits=[('src/datastore/LevelDB.cpp','''    ::leveldb::WriteBatch batch;
    ::leveldb::WriteOptions options;
    options.sync = true;
    return db->Write(options, &batch).ok()?DATASTORE_SUCCESS:DATASTORE_ERROR;''','''    ::leveldb::WriteBatch batch;
    ::leveldb::WriteOptions options;

    // nothing to wait for if nothing was written since the previous sync
    options.sync = stats.puts.size() && (stats.puts.back().time.end > last_sync);
    last_sync = ::Stats::now();
    return db->Write(options, &batch).ok()?DATASTORE_SUCCESS:DATASTORE_ERROR;'''),
('include/datastore/LevelDB.hpp','''        std::size_t ReadHistogramsImpl(const HistNames_t &names);
''','''        std::size_t ReadHistogramsImpl(const HistNames_t &names);

        ::Stats::Chronopoint last_sync;
''')]
demo=r'''
// what is in the log file when Sync returns has been synced to the disk
#include "common.hpp"
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

static std::atomic<int> synced{0};
extern "C" int fdatasync(int fd) {
    synced++;
    return fsync(fd);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.leveldb = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string s = "0:s", p = "p", v = "value";
    put(&hx, s, p, v);
    int before = synced;
    expect(finish(hxhim::Sync(&hx)) == 2, "Sync"); // the PUT and the datastore
    expect(synced > before, "the PUT was not synced");
    del(&hx, s, p);
    before = synced;
    expect(finish(hxhim::Sync(&hx)) == 2, "Sync");
    expect(synced > before, "the DELETE was not synced");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
