// The simulated disk: POSIX file calls below /simdisk are answered from memory,
// with page cache semantics.  Written data is durable after fsync or fdatasync
// of the file; directory changes are durable, in order, after any later fsync
// (a journaling file system); a power loss keeps a prefix of the rest.
#include "simfs.hpp"
#include "real.hpp"
#include "sim.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <unistd.h>

using namespace sim;

#define REAL(name) ((decltype(&::name)) ([]() -> void * { static void *p = nullptr; if (!p) p = dlsym(RTLD_NEXT, #name); return p; }()))

namespace {
struct Inode {
    uint64_t id = 0;
    bool dir = false;
    std::string data;
    size_t synced = 0;          // durable prefix
    bool rewritten = false;     // bytes below `synced` changed since
    std::string old;            // durable content when rewritten
    bool bad = false;           // a write or sync of this file failed while it was open
    int bad_errno = 0;
    int lock_owner = -1;        // holder of the advisory lock (descriptor number)
    int opens = 0;
};
typedef std::shared_ptr<Inode> InodeP;
typedef std::map<std::string, InodeP> Tree;

enum JOp { J_LINK, J_UNLINK, J_RENAME };
struct Journal { JOp op; std::string a, b; InodeP ino; };

Tree *tree, *durable;
std::vector<Journal> *journal;
uint64_t next_ino = 1, mutations = 0;

struct Fd { InodeP ino; std::string path; size_t pos = 0; int flags = 0; };
const int FD_BASE = 1 << 20;
std::map<int, Fd> *fds;
int next_fd = FD_BASE;
std::map<uintptr_t, size_t> *maps;

struct Dir { std::vector<std::string> names; size_t pos = 0; struct dirent de; uint32_t magic = 0xd14; };
std::set<void *> *dirs;

bool ours(const char *p) {
    // the library's default names are relative: nothing of that is real
    if (p && (!strncmp(p, "hxhim-", 6) || !strncmp(p, "./", 2))) return true;
    return p && !strncmp(p, SIMDISK, sizeof SIMDISK - 1) && (p[sizeof SIMDISK - 1] == '/' || !p[sizeof SIMDISK - 1]);
}
bool ours(int fd) { return fd >= FD_BASE; }

std::string norm(const char *p) {
    std::string out;
    for (const char *c = p; *c; c++) {
        if (*c == '/' && !out.empty() && out.back() == '/') continue;
        out += *c;
    }
    // resolve . and ..
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < out.size()) {
        size_t j = out.find('/', i);
        if (j == std::string::npos) j = out.size();
        std::string part = out.substr(i, j - i);
        i = j + 1;
        if (part.empty() || part == ".") continue;
        if (part == "..") { if (!parts.empty()) parts.pop_back(); continue; }
        parts.push_back(part);
    }
    std::string r;
    for (auto &s : parts) r += "/" + s;
    return r.empty() ? "/" : r;
}
std::string parent(const std::string &p) {
    size_t i = p.rfind('/');
    return i == 0 || i == std::string::npos ? "/" : p.substr(0, i);
}
InodeP find(const std::string &p) {
    auto it = tree->find(p);
    return it == tree->end() ? nullptr : it->second;
}
bool parent_ok(const std::string &p) {
    InodeP d = find(parent(p));
    if (!d) { errno = ENOENT; return false; }
    if (!d->dir) { errno = ENOTDIR; return false; }
    return true;
}

void commit() {
    for (Journal &j : *journal) {
        if (j.op == J_LINK) (*durable)[j.a] = j.ino;
        else if (j.op == J_UNLINK) durable->erase(j.a);
        else { durable->erase(j.a); (*durable)[j.b] = j.ino; }
    }
    journal->clear();
}

// returns 0 or the errno to inject
int fault(FsFaultOp op, const std::string &path, FsFault **which = nullptr) {
    for (FsFault &f : *fs_faults) {
        if (f.op != op) continue;
        if (!f.match.empty() && path.find(f.match) == std::string::npos) continue;
        f.seen++;
        if (f.seen < f.nth) continue;
        if (f.count && f.fired >= (uint64_t)std::llabs(f.count)) continue;
        f.fired++;
        Counters &c = sh->c;
        switch (op) {
            case FF_WRITE: if (f.err == ENOSPC) c.fs_nospace++; else c.fs_write_err++; break;
            case FF_SYNC: c.fs_sync_err++; break;
            case FF_READ: c.fs_read_err++; break;
            case FF_OPEN: c.fs_open_err++; break;
            default: c.fs_rename_err++; break;
        }
        sim::log("fault: %s of %s fails with %s", op == FF_WRITE ? "write" : op == FF_SYNC ? "sync" : op == FF_READ ? "read" :
                 op == FF_OPEN ? "open" : "metadata change", path.c_str(), strerror(f.err));
        trace_mix(0xfa17 + op);
        if (on_fault) on_fault(op, path);
        if (which) *which = &f;
        return f.err;
    }
    return 0;
}

void mutate(const char *what, const std::string &path) {
    mutations++;
    sh->c.fs_ops++;
    sim::log("disk: %s %s", what, path.c_str());
    trace_mix(mix2(mutations, path.size()));
    if (fs_crash_at && mutations == fs_crash_at) crash_now(fs_crash_kind);
}

void before_change(InodeP &n, size_t off) {
    if (off < n->synced && !n->rewritten) {
        n->rewritten = true;
        n->old = n->data.substr(0, n->synced);
    }
}

ssize_t do_write(Fd &f, const void *buf, size_t n, size_t off) {
    if (f.ino->bad) { errno = f.ino->bad_errno; return -1; }
    FsFault *which = nullptr;
    const int e = fault(FF_WRITE, f.path, &which);
    size_t take = n;
    if (e) {
        if (which->count >= 0) {
            f.ino->bad = true;
            f.ino->bad_errno = e;
        }
        if (!which->shortw || n < 2) { errno = e; return -1; }
        take = 1 + mix64(n * 31 + mutations) % (n - 1);
        sh->c.fs_short++;
    }
    mutate("write", f.path);
    before_change(f.ino, off);
    if (f.ino->data.size() < off + take) f.ino->data.resize(off + take);
    memcpy(&f.ino->data[off], buf, take);
    return take;
}

int do_sync(Fd &f) {
    if (f.ino->bad) { errno = f.ino->bad_errno; return -1; }
    const int e = fault(FF_SYNC, f.path);
    if (e) {
        f.ino->bad = true;
        f.ino->bad_errno = e;
        errno = e;
        return -1;
    }
    mutate("sync", f.path);
    sh->c.fs_syncs++;
    f.ino->synced = f.ino->data.size();
    f.ino->rewritten = false;
    f.ino->old.clear();
    commit();
    return 0;
}

int do_open(const char *path, int flags) {
    const std::string p = norm(path);
    const int e = fault(FF_OPEN, p);
    if (e) { errno = e; return -1; }
    InodeP n = find(p);
    if (!n) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!parent_ok(p)) return -1;
        mutate("create", p);
        n = std::make_shared<Inode>();
        n->id = next_ino++;
        (*tree)[p] = n;
        journal->push_back({J_LINK, p, "", n});
    }
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (n->dir && (flags & (O_WRONLY | O_RDWR))) { errno = EISDIR; return -1; }
        if ((flags & O_TRUNC) && !n->data.empty()) {
            mutate("truncate", p);
            before_change(n, 0);
            n->data.clear();
            if (n->synced) { /* durable content stays until the next sync */ }
        }
    }
    const int fd = next_fd++;
    if (n->opens++ == 0) { n->bad = false; }
    (*fds)[fd] = Fd{n, p, 0, flags};
    return fd;
}

void fill_stat(struct stat *st, const InodeP &n) {
    memset(st, 0, sizeof *st);
    st->st_ino = n->id;
    st->st_dev = 99;
    st->st_nlink = 1;
    st->st_mode = n->dir ? S_IFDIR | 0777 : S_IFREG | 0644;
    st->st_size = n->data.size();
    st->st_blksize = 4096;
    st->st_blocks = (n->data.size() + 511) / 512;
    st->st_mtim.tv_sec = 1700000000;
}
Fd *get(int fd) {
    auto it = fds->find(fd);
    if (it == fds->end()) { errno = EBADF; return nullptr; }
    return &it->second;
}

void put64(uint8_t *&p, uint64_t v) { memcpy(p, &v, 8); p += 8; }
uint64_t get64(const uint8_t *&p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
}

namespace sim {
std::vector<FsFault> *fs_faults;
std::map<std::string, std::string> *conf_files;
void (*on_fault)(int op, const std::string &path);
uint64_t fs_crash_at = 0;
int fs_crash_kind = 0;

void fs_init() {
    tree = new Tree;
    durable = new Tree;
    journal = new std::vector<Journal>;
    fds = new std::map<int, Fd>;
    maps = new std::map<uintptr_t, size_t>;
    dirs = new std::set<void *>;
    if (!fs_faults) fs_faults = new std::vector<FsFault>;
    InodeP root = std::make_shared<Inode>();
    root->dir = true;
    (*tree)["/"] = (*durable)["/"] = root;
    InodeP d = std::make_shared<Inode>();
    d->dir = true;
    d->id = next_ino++;
    (*tree)[SIMDISK] = (*durable)[SIMDISK] = d;
}
uint64_t fs_mutations() { return mutations; }

void fs_load(const uint8_t *p, size_t n) {
    fs_init();
    if (!n) return;
    const uint64_t files = get64(p);
    for (uint64_t i = 0; i < files; i++) {
        const uint64_t nl = get64(p), dl = get64(p), dir = get64(p);
        std::string name((const char *) p, nl);
        p += nl;
        InodeP f = std::make_shared<Inode>();
        f->id = next_ino++;
        f->dir = dir;
        f->data.assign((const char *) p, dl);
        f->synced = dl;
        p += dl;
        (*tree)[name] = (*durable)[name] = f;
    }
}
size_t fs_save(uint8_t *out, size_t cap) {
    uint8_t *p = out;
    put64(p, tree->size());
    for (auto &f : *tree) {
        if ((size_t) (p - out) + 24 + f.first.size() + f.second->data.size() > cap) harness_error("disk image too large");
        put64(p, f.first.size());
        put64(p, f.second->data.size());
        put64(p, f.second->dir);
        memcpy(p, f.first.data(), f.first.size());
        p += f.first.size();
        memcpy(p, f.second->data.data(), f.second->data.size());
        p += f.second->data.size();
    }
    return p - out;
}

void fs_power_loss() {
    // a prefix of the directory changes
    const size_t n = journal->size();
    size_t keep = n ? choose(K_META, [n](uint64_t r) { return r % (n + 1); }) : 0;
    if (keep > n) keep = n;
    sh->c.crash_lost_meta += n - keep;
    journal->resize(keep);
    commit();
    for (auto &f : *durable) {
        InodeP i = f.second;
        if (i->dir) continue;
        if (i->rewritten) {      // old or new content of a rewritten file
            if (!choose(K_TEAR, [](uint64_t r) { return r & 1; })) { i->data = i->old; i->rewritten = false; continue; }
            i->rewritten = false;
        }
        const size_t un = i->data.size() - (i->synced < i->data.size() ? i->synced : i->data.size());
        if (!un) continue;
        // 0: everything unsynced is lost; otherwise that many bytes survive
        size_t k = choose(K_TEAR, [un](uint64_t r) -> uint64_t {
            switch (r & 3) { case 0: return 0; case 1: return un; default: return (r >> 8) % (un + 1); } });
        if (k > un) k = un;
        if (k < un) { sh->c.crash_lost_bytes += un - k; if (k) sh->c.crash_torn_files++; }
        i->data.resize(i->synced + k);
    }
    *tree = *durable;
}

bool fs_any_fault_fired() {
    for (FsFault &f : *fs_faults) if (f.fired) return true;
    return false;
}
void fs_check_released(const char *when) {
    for (auto &f : *fds)
        violation("fs-leak", "%s: %s is still open%s", when, f.second.path.c_str(), f.second.ino->lock_owner >= 0 ? " and locked" : "");
}
std::vector<std::string> fs_list() {
    std::vector<std::string> v;
    for (auto &f : *tree) v.push_back(f.first + (f.second->dir ? "/" : ""));
    return v;
}
uint64_t fs_content_hash() {
    uint64_t h = 0;
    for (auto &f : *tree) {
        for (char c : f.first) h = mix64(h ^ (unsigned char) c);
        for (char c : f.second->data) h = mix64(h ^ (unsigned char) c);
    }
    return h;
}
}

#define ENTER point(PT_FS); Quiet quiet_

static int open_common(const char *path, int flags) { ENTER; return do_open(path, flags); }

extern "C" {
int open(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (ours(path)) return open_common(path, flags);
    return REAL(open)(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (ours(path)) return open_common(path, flags);
    return REAL(open64)(path, flags, mode);
}
int creat(const char *path, mode_t mode) {
    if (ours(path)) return open_common(path, O_CREAT | O_WRONLY | O_TRUNC);
    return REAL(creat)(path, mode);
}
int close(int fd) {
    if (!ours(fd)) return REAL(close)(fd);
    ENTER;
    Fd *f = get(fd);
    if (!f) return -1;
    // closing any descriptor of a file releases the process' lock on it
    if (f->ino->lock_owner >= 0) f->ino->lock_owner = -1;
    f->ino->opens--;
    fds->erase(fd);
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!ours(fd)) return REAL(write)(fd, b, n);
    ENTER;
    Fd *f = get(fd);
    if (!f) return -1;
    if (f->flags & O_APPEND) f->pos = f->ino->data.size();
    const ssize_t r = do_write(*f, b, n, f->pos);
    if (r > 0) f->pos += r;
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) {
    if (!ours(fd)) return REAL(pwrite)(fd, b, n, off);
    ENTER;
    Fd *f = get(fd);
    return f ? do_write(*f, b, n, off) : -1;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ours(fd)) return REAL(writev)(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        const ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t) r < v[i].iov_len) break;
    }
    return t;
}
static ssize_t do_read(Fd *f, void *b, size_t n, size_t off) {
    const int e = fault(FF_READ, f->path);
    if (e) { errno = e; return -1; }
    if (off >= f->ino->data.size()) return 0;
    const size_t k = std::min(n, f->ino->data.size() - off);
    memcpy(b, f->ino->data.data() + off, k);
    return k;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!ours(fd)) return REAL(read)(fd, b, n);
    ENTER;
    Fd *f = get(fd);
    if (!f) return -1;
    const ssize_t r = do_read(f, b, n, f->pos);
    if (r > 0) f->pos += r;
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t off) {
    if (!ours(fd)) return REAL(pread)(fd, b, n, off);
    ENTER;
    Fd *f = get(fd);
    return f ? do_read(f, b, n, off) : -1;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }
off_t lseek(int fd, off_t off, int wh) {
    if (!ours(fd)) return REAL(lseek)(fd, off, wh);
    Fd *f = get(fd);
    if (!f) return -1;
    f->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : f->ino->data.size() + off;
    return f->pos;
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
int fsync(int fd) {
    if (!ours(fd)) return REAL(fsync)(fd);
    ENTER;
    Fd *f = get(fd);
    return f ? do_sync(*f) : -1;
}
int fdatasync(int fd) {
    if (!ours(fd)) return REAL(fdatasync)(fd);
    ENTER;
    Fd *f = get(fd);
    return f ? do_sync(*f) : -1;
}
int sync_file_range(int fd, off64_t a, off64_t n, unsigned fl) {
    return ours(fd) ? 0 : REAL(sync_file_range)(fd, a, n, fl);
}
int ftruncate(int fd, off_t len) {
    if (!ours(fd)) return REAL(ftruncate)(fd, len);
    ENTER;
    Fd *f = get(fd);
    if (!f) return -1;
    mutate("ftruncate", f->path);
    before_change(f->ino, len);
    f->ino->data.resize(len);
    return 0;
}
int truncate(const char *p, off_t len) {
    if (!ours(p)) return REAL(truncate)(p, len);
    ENTER;
    InodeP n = find(norm(p));
    if (!n) { errno = ENOENT; return -1; }
    mutate("truncate", p);
    before_change(n, len);
    n->data.resize(len);
    return 0;
}
int fallocate(int fd, int mode, off_t a, off_t n) {
    if (!ours(fd)) return REAL(fallocate)(fd, mode, a, n);
    errno = EOPNOTSUPP;
    return -1;
}
int posix_fallocate(int fd, off_t a, off_t n) { return ours(fd) ? EOPNOTSUPP : REAL(posix_fallocate)(fd, a, n); }
int posix_fadvise(int fd, off_t a, off_t n, int adv) { return ours(fd) ? 0 : REAL(posix_fadvise)(fd, a, n, adv); }
ssize_t readahead(int fd, off64_t a, size_t n) { return ours(fd) ? 0 : REAL(readahead)(fd, a, n); }

int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!ours(fd)) return REAL(fcntl)(fd, cmd, arg);
    Quiet q;
    Fd *f = get(fd);
    if (!f) return -1;
    if (cmd == F_SETLK || cmd == F_SETLKW) {
        struct flock *l = (struct flock *) arg;
        if (l->l_type == F_UNLCK) f->ino->lock_owner = -1;
        else {
            // one process per rank in reality: another rank's lock conflicts
            const int owner = sim::rank() + 1;
            if (f->ino->lock_owner >= 0 && f->ino->lock_owner != owner) { errno = EAGAIN; return -1; }
            f->ino->lock_owner = owner;
        }
    }
    return 0;
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!ours(fd)) return REAL(fcntl64)(fd, cmd, arg);
    return fcntl(fd, cmd, arg);
}
int flock(int fd, int op) {
    if (!ours(fd)) { static auto r = (int (*)(int, int)) dlsym(RTLD_NEXT, "flock"); return r(fd, op); }
    return 0;
}

int stat(const char *p, struct stat *st) {
    if (!ours(p)) return REAL(stat)(p, st);
    ENTER;
    InodeP n = find(norm(p));
    if (!n) { errno = ENOENT; return -1; }
    fill_stat(st, n);
    return 0;
}
int lstat(const char *p, struct stat *st) { return ours(p) ? stat(p, st) : REAL(lstat)(p, st); }
int fstat(int fd, struct stat *st) {
    if (!ours(fd)) return REAL(fstat)(fd, st);
    Quiet q;
    Fd *f = get(fd);
    if (!f) return -1;
    fill_stat(st, f->ino);
    return 0;
}
int stat64(const char *p, struct stat64 *st) { return ours(p) ? stat(p, (struct stat *) st) : REAL(stat64)(p, st); }
int lstat64(const char *p, struct stat64 *st) { return ours(p) ? stat(p, (struct stat *) st) : REAL(lstat64)(p, st); }
int fstat64(int fd, struct stat64 *st) { return ours(fd) ? fstat(fd, (struct stat *) st) : REAL(fstat64)(fd, st); }
int access(const char *p, int m) {
    if (!ours(p)) return REAL(access)(p, m);
    ENTER;
    if (!find(norm(p))) { errno = ENOENT; return -1; }
    return 0;
}
static void fill_vfs(struct statvfs *s) {
    memset(s, 0, sizeof *s);
    s->f_bsize = s->f_frsize = 4096;
    s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20;
}
int statvfs(const char *p, struct statvfs *s) { if (!ours(p)) return REAL(statvfs)(p, s); fill_vfs(s); return 0; }
int fstatvfs(int fd, struct statvfs *s) { if (!ours(fd)) return REAL(fstatvfs)(fd, s); fill_vfs(s); return 0; }
int fstatfs(int fd, struct statfs *s) {
    if (!ours(fd)) return REAL(fstatfs)(fd, s);
    memset(s, 0, sizeof *s);
    s->f_type = 0xEF53;
    s->f_bsize = 4096;
    s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20;
    return 0;
}
int mkdir(const char *path, mode_t m) {
    if (!ours(path)) return REAL(mkdir)(path, m);
    ENTER;
    const std::string p = norm(path);
    if (find(p)) { errno = EEXIST; return -1; }
    const int e = fault(FF_MKDIR, p);
    if (e) { errno = e; return -1; }
    if (!parent_ok(p)) return -1;
    mutate("mkdir", p);
    InodeP n = std::make_shared<Inode>();
    n->id = next_ino++;
    n->dir = true;
    (*tree)[p] = n;
    journal->push_back({J_LINK, p, "", n});
    return 0;
}
int rmdir(const char *path) {
    if (!ours(path)) return REAL(rmdir)(path);
    ENTER;
    const std::string p = norm(path);
    InodeP n = find(p);
    if (!n) { errno = ENOENT; return -1; }
    auto it = tree->upper_bound(p);
    if (it != tree->end() && it->first.compare(0, p.size() + 1, p + "/") == 0) { errno = ENOTEMPTY; return -1; }
    mutate("rmdir", p);
    tree->erase(p);
    journal->push_back({J_UNLINK, p, "", n});
    return 0;
}
int unlink(const char *path) {
    if (!ours(path)) return REAL(unlink)(path);
    ENTER;
    const std::string p = norm(path);
    InodeP n = find(p);
    if (!n) { errno = ENOENT; return -1; }
    const int e = fault(FF_UNLINK, p);
    if (e) { errno = e; return -1; }
    mutate("unlink", p);
    tree->erase(p);
    journal->push_back({J_UNLINK, p, "", n});
    return 0;
}
int remove(const char *path) {
    if (!ours(path)) { static auto r = (int (*)(const char *)) dlsym(RTLD_NEXT, "remove"); return r(path); }
    InodeP n = find(norm(path));
    return n && n->dir ? rmdir(path) : unlink(path);
}
int rename(const char *a, const char *b) {
    if (!ours(a)) { static auto r = (int (*)(const char *, const char *)) dlsym(RTLD_NEXT, "rename"); return r(a, b); }
    ENTER;
    const std::string p = norm(a), q = norm(b);
    InodeP n = find(p);
    if (!n) { errno = ENOENT; return -1; }
    if (!parent_ok(q)) return -1;
    const int e = fault(FF_RENAME, q);
    if (e) { errno = e; return -1; }
    mutate("rename", p + " -> " + q);
    if (n->dir) {       // move everything below
        Tree moved;
        for (auto it = tree->begin(); it != tree->end();) {
            if (it->first.compare(0, p.size() + 1, p + "/") == 0) { moved[q + it->first.substr(p.size())] = it->second; journal->push_back({J_RENAME, it->first, q + it->first.substr(p.size()), it->second}); it = tree->erase(it); }
            else ++it;
        }
        tree->insert(moved.begin(), moved.end());
    }
    tree->erase(p);
    (*tree)[q] = n;
    journal->push_back({J_RENAME, p, q, n});
    return 0;
}
int link(const char *a, const char *b) {
    if (!ours(a)) return REAL(link)(a, b);
    ENTER;
    InodeP n = find(norm(a));
    if (!n) { errno = ENOENT; return -1; }
    if (find(norm(b))) { errno = EEXIST; return -1; }
    mutate("link", b);
    (*tree)[norm(b)] = n;
    journal->push_back({J_LINK, norm(b), "", n});
    return 0;
}
char *realpath(const char *p, char *out) {
    if (!ours(p)) return REAL(realpath)(p, out);
    Quiet q;
    const std::string s = norm(p);
    if (!out) out = (char *) malloc(4096);
    strcpy(out, s.c_str());
    return out;
}
char *__realpath_chk(const char *p, char *out, size_t) { return realpath(p, out); }

DIR *opendir(const char *path) {
    if (!ours(path)) return REAL(opendir)(path);
    ENTER;
    const std::string p = norm(path);
    InodeP n = find(p);
    if (!n) { errno = ENOENT; return nullptr; }
    if (!n->dir) { errno = ENOTDIR; return nullptr; }
    const int e = fault(FF_OPEN, p);
    if (e) { errno = e; return nullptr; }
    Dir *d = new Dir;
    d->names = {".", ".."};
    for (auto &f : *tree)
        if (f.first.size() > p.size() && parent(f.first) == p) d->names.push_back(f.first.substr(p.size() + 1));
    dirs->insert(d);
    return (DIR *) d;
}
struct dirent *readdir(DIR *dp) {
    if (!dirs || !dirs->count(dp)) return REAL(readdir)(dp);
    Quiet q;
    Dir *d = (Dir *) dp;
    if (d->pos >= d->names.size()) return nullptr;
    memset(&d->de, 0, sizeof d->de);
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->pos++].c_str());
    d->de.d_type = DT_UNKNOWN;
    d->de.d_ino = d->pos;
    return &d->de;
}
struct dirent64 *readdir64(DIR *dp) {
    if (!dirs || !dirs->count(dp)) return REAL(readdir64)(dp);
    return (struct dirent64 *) readdir(dp);
}
int closedir(DIR *dp) {
    if (!dirs || !dirs->count(dp)) return REAL(closedir)(dp);
    Quiet q;
    dirs->erase(dp);
    delete (Dir *) dp;
    return 0;
}

void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    if (fd < FD_BASE) return REAL(mmap)(a, n, prot, flags, fd, off);
    ENTER;
    Fd *f = get(fd);
    if (!f) return MAP_FAILED;
    const int e = fault(FF_READ, f->path);
    if (e) { errno = e; return MAP_FAILED; }
    if (prot & PROT_WRITE) { errno = ENODEV; return MAP_FAILED; }
    char *p = (char *) malloc(n + 1);
    memset(p, 0, n + 1);
    if ((size_t) off < f->ino->data.size()) memcpy(p, f->ino->data.data() + off, std::min(n, f->ino->data.size() - (size_t) off));
    (*maps)[(uintptr_t) p] = n;
    return p;
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void *a, size_t n) {
    if (maps) {
        auto it = maps->find((uintptr_t) a);
        if (it != maps->end()) {
            Quiet q;
            maps->erase(it);
            free(a);
            return 0;
        }
    }
    return REAL(munmap)(a, n);
}

// info logs of the storage engines go nowhere; other streams are rare
static FILE *null_stream() { static auto r = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); return r("/dev/null", "w"); }
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((Cookie *) c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { const ssize_t r = write(((Cookie *) c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { *o = lseek(((Cookie *) c)->fd, *o, w); return *o < 0 ? -1 : 0; }
static int ck_close(void *c) { Quiet q; const int r = close(((Cookie *) c)->fd); delete (Cookie *) c; return r; }
static FILE *stream(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    return fopencookie(new Cookie{fd}, mode, io);
}
static bool is_info_log(const std::string &p) {
    const size_t i = p.rfind('/');
    return p.compare(i + 1, 3, "LOG") == 0 && p.compare(i + 1, 4, "LOCK") != 0;
}
// configuration files; a stream of the C++ library reads the descriptor itself, so there must be a real one
static bool conf_stream(const char *path, FILE **out) {
    if (!path || !sim::conf_files || !active()) return false;
    if (strcmp(path, "hxhim.conf") && strcmp(path, SIMDISK "/job.conf")) return false;
    point(PT_FS);
    Quiet q;
    auto it = sim::conf_files->find(path);
    *out = nullptr;
    if (it == sim::conf_files->end()) { errno = ENOENT; return true; }
    int fds[2];
    if (it->second.size() > 32768 || pipe(fds)) harness_error("no pipe for a configuration file");
    if (REAL(write)(fds[1], it->second.data(), it->second.size()) != (ssize_t) it->second.size()) harness_error("cannot fill a pipe");
    REAL(close)(fds[1]);
    static auto r = (FILE *(*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
    *out = r(fds[0], "r");
    return true;
}
FILE *fopen(const char *path, const char *mode) {
    { FILE *f; if (conf_stream(path, &f)) return f; }
    if (!ours(path)) { static auto r = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); return r(path, mode); }
    if (is_info_log(path) && *mode != 'r') { Quiet q; return null_stream(); }
    const int fl = *mode == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : *mode == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    const int fd = open_common(path, fl);
    Quiet q;
    return fd < 0 ? nullptr : stream(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, const char *mode) {
    if (!ours(fd)) { static auto r = (FILE *(*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen"); return r(fd, mode); }
    Quiet q;
    Fd *f = get(fd);
    if (!f) return nullptr;
    if (is_info_log(f->path)) { close(fd); return null_stream(); }
    return stream(fd, mode);
}
}
