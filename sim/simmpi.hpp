#ifndef SIM_SIMMPI_HPP
#define SIM_SIMMPI_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
namespace sim {
void mpi_configure(int nranks, uint32_t p_delay, uint32_t max_delay_us, uint32_t p_rendezvous, uint32_t p_match);
// every point to point message, when it is sent
extern std::function<void(int src, int dst, int tag, const void *data, size_t len)> on_mpi_send;
void mpi_check_clean(const char *when);   // no message left behind, no receive still posted
size_t mpi_pending_messages();
}
#endif
