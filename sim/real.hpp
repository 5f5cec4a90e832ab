// The real functions behind the interposed ones, and what the interposers
// need from the scheduler.
#ifndef SIM_REAL_HPP
#define SIM_REAL_HPP
#include <pthread.h>
#include <sys/types.h>
namespace sim {
namespace real {
int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
ssize_t write(int, const void *, size_t);
}
int  thread_create(pthread_t *h, void *(*fn)(void *), void *arg);
int  thread_join(pthread_t h, void **ret);
bool is_sim_thread(pthread_t h);
bool on_sim_thread();
void set_thread_name(pthread_t h, const char *n);
void poll_ready(int tid);
}
#endif
