#ifndef SIM_SIMFS_HPP
#define SIM_SIMFS_HPP
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace sim {
// Everything below this directory lives on the simulated disk.
#define SIMDISK "/simdisk"

enum FsFaultOp { FF_WRITE, FF_SYNC, FF_READ, FF_OPEN, FF_RENAME, FF_UNLINK, FF_MKDIR, FF_KINDS };
struct FsFault {
    int op = FF_WRITE;
    int err = 5;               // errno; for FF_WRITE ENOSPC or EIO
    uint64_t nth = 1;          // the n-th matching call fails (1 based)
    int64_t count = 1;         // and the following ones, 0 = all; a failed write or sync of a file sticks to the open file, unless < 0: that many, and it does not
    std::string match;         // substring of the path
    bool shortw = false;       // a prefix of the data is written first
    uint64_t seen = 0, fired = 0;
};
extern std::vector<FsFault> *fs_faults;
extern void (*on_fault)(int op, const std::string &path);   // told of every injected failure
extern std::map<std::string, std::string> *conf_files;          // configuration files: their contents
extern uint64_t fs_crash_at;   // crash before the n-th mutating call
extern int fs_crash_kind;
void fs_init();
void fs_load(const uint8_t *p, size_t n);
size_t fs_save(uint8_t *p, size_t cap);        // the disk as it is (process crash, clean end)
void fs_power_loss();                          // drops what was not durable
uint64_t fs_mutations();
void fs_check_released(const char *when);      // no descriptor open, no lock held
std::vector<std::string> fs_list();
bool fs_any_fault_fired();
uint64_t fs_content_hash();
}
#endif
