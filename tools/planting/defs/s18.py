prop='C06'
needs='histograms are not written on Close, no Sync before Close, and a loss of power after it'
breaks='Close does not make what was written durable unless histograms are written'
edits=[('src/datastore/datastore.cpp','''    Sync(write_histograms);
    hists.clear();
    CloseImpl();''','''    if (write_histograms && hists.size()) {
        Sync(write_histograms);
    }
    hists.clear();
    CloseImpl();''')]
demo=r'''
// everything written to the log of a datastore has been synced when Close returns
#include <dlfcn.h>
#include <map>
#include <mutex>
#include "common.hpp"

static std::mutex m;
static std::map<int, bool> dirty; // log files that were written to since the last sync

static bool is_log(int fd) {
    char link[64], path[512];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, path, sizeof(path) - 1);
    return n > 4 && strncmp(path + n - 4, ".log", 4) == 0;
}

extern "C" ssize_t write(int fd, const void *buf, size_t n) {
    typedef ssize_t (*f)(int, const void *, size_t);
    static f real = (f) dlsym(RTLD_NEXT, "write");
    if (g_active && is_log(fd)) { std::lock_guard<std::mutex> l(m); dirty[fd] = true; }
    return real(fd, buf, n);
}
extern "C" int fdatasync(int fd) {
    typedef int (*f)(int);
    static f real = (f) dlsym(RTLD_NEXT, "fdatasync");
    { std::lock_guard<std::mutex> l(m); dirty.erase(fd); }
    return real(fd);
}
extern "C" int fsync(int fd) {
    typedef int (*f)(int);
    static f real = (f) dlsym(RTLD_NEXT, "fsync");
    { std::lock_guard<std::mutex> l(m); dirty.erase(fd); }
    return real(fd);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.leveldb = 1;
    set_options(&hx, o);
    hxhim_datastore_histograms(&hx, 0, 0);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    g_active = true;
    put(&hx, "0:k", "p", "v");
    expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT");
    hxhim::Close(&hx);
    g_active = false;
    expect(dirty.empty(), "Close left data that was not synced");
    MPI_Finalize();
    return 0;
}
'''
