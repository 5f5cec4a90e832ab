prop='C09'
needs='a packet of PUTs that is written in more than one batch, and a write error in a batch before the last one'
breaks='large packets are written in pieces and only the outcome of the last piece is reported'
edits=[('src/datastore/LevelDB.cpp','''            batch.Put(::leveldb::Slice((char *) key.data(), key.size()),
                      ::leveldb::Slice((char *) value.data(), value.size()));

            event.size += key.size() + value.size();
''','''            // keep batches small
            if (batch.ApproximateSize() > 1024) {
                db->Write(::leveldb::WriteOptions(), &batch);
                batch.Clear();
            }

            event.size += key.size() + value.size();
            batch.Put(::leveldb::Slice((char *) key.data(), key.size()),
                      ::leveldb::Slice((char *) value.data(), value.size()));
''')]
demo=r'''
// PUTs that were reported as successful really took effect, also when a write fails
#include "common.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <sys/stat.h>
#include <string>

static std::atomic<int> g_countdown{-1};

// the file of a descriptor
static std::string file_of(int fd) {
    char link[64], path[512];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, path, sizeof(path) - 1);
    return n > 0 ? std::string(path, n) : "";
}

// one write to a log of the datastore fails
extern "C" ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t)) dlsym(RTLD_NEXT, "write");
    if (g_active) {
        const std::string f = file_of(fd);
        if (f.size() > 4 && f.compare(f.size() - 4, 4, ".log") == 0 && g_countdown-- == 0) {
            errno = EIO;
            return -1;
        }
    }
    return real(fd, buf, n);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    for (int at = 0; at < 6; at++) {
        hxhim_t hx;
        Opts o;
        o.leveldb = 1;
        o.name = "ds" + std::to_string(at);
        set_options(&hx, o);
        expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
        g_countdown = at;
        g_active = true;
        for (int i = 0; i < 40; i++) put(&hx, "0:" + std::to_string(i), "p", std::string(100, 'a' + i % 20));
        hxhim::Results *res = hxhim::FlushPuts(&hx);
        g_active = false;
        std::set<std::string> ok;
        for (res->GoToHead(); res->ValidIterator(); res->GoToNext()) {
            int st = -1;
            void *s = nullptr;
            size_t n = 0;
            res->Status(&st);
            res->Subject(&s, &n, nullptr);
            if (st == HXHIM_SUCCESS) ok.insert(std::string((char *) s, n));
        }
        hxhim::Results::Destroy(res);
        for (const std::string &s : ok) {
            std::string v;
            expect(get(&hx, s, "p", v), "a PUT that was reported as successful is missing");
        }
        hxhim::Close(&hx);
    }
    MPI_Finalize();
    return 0;
}
'''
