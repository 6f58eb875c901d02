/* A program as a user would write it: every construct that the public headers expand in the user's own code. */
#include "pthread.h"
#include "sched.h"
#include "semaphore.h"
#include <errno.h>
#ifdef __cplusplus
extern "C" {
#endif
void client_body(int n);
void client_caught(void);
typedef void (*handler_t)(void *);

void client_cleanup(handler_t r, void *a, int e)
{
  client_body(1);
  pthread_cleanup_push(r, a);
  client_body(2);
  pthread_cleanup_pop(e);
  client_body(3);
}

void client_nested(handler_t r, void *a, int e, handler_t s, void *b, int f)
{
  pthread_cleanup_push(r, a);
  client_body(1);
  pthread_cleanup_push(s, b);
  client_body(2);
  pthread_cleanup_pop(f);
  client_body(3);
  pthread_cleanup_pop(e);
  client_body(4);
}

void client_never(handler_t r, void *a)
{
  pthread_cleanup_push(r, a);
  client_body(1);
  pthread_cleanup_pop(0);
}

void client_always(handler_t r, void *a)
{
  pthread_cleanup_push(r, a);
  client_body(1);
  pthread_cleanup_pop(1);
}

int client_rr(pid_t p, struct timespec *t) { return sched_rr_get_interval(p, t); }

int client_cpu_count(cpu_set_t *s) { return CPU_COUNT(s); }
void client_cpu_zero(cpu_set_t *s) { CPU_ZERO(s); }
void client_cpu_set(int c, cpu_set_t *s) { CPU_SET(c, s); }
void client_cpu_clr(int c, cpu_set_t *s) { CPU_CLR(c, s); }
int client_cpu_isset(int c, cpu_set_t *s) { return CPU_ISSET(c, s); }
void client_cpu_and(cpu_set_t *d, cpu_set_t *a, cpu_set_t *b) { CPU_AND(d, a, b); }
void client_cpu_or(cpu_set_t *d, cpu_set_t *a, cpu_set_t *b) { CPU_OR(d, a, b); }
void client_cpu_xor(cpu_set_t *d, cpu_set_t *a, cpu_set_t *b) { CPU_XOR(d, a, b); }
int client_cpu_equal(cpu_set_t *a, cpu_set_t *b) { return CPU_EQUAL(a, b); }

pthread_once_t client_once = PTHREAD_ONCE_INIT;
struct sched_param client_param;
pthread_t client_thread;
struct timespec client_time;
cpu_set_t client_set;
#ifdef __cplusplus
}
#endif
