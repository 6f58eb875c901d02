/* a condition wait refused with EPERM (the caller does not hold the error-checking mutex) used to lock the mutex */
#include "pthread.h"
#include <stdio.h>
static pthread_mutex_t m; static pthread_cond_t c; static int busy;
static void *other(void *x) { busy = pthread_mutex_trylock(&m); return 0; }
int main(void) {
  pthread_mutexattr_t a; pthread_t t; void *r;
  pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK);
  pthread_mutex_init(&m, &a); pthread_cond_init(&c, 0);
  int w = pthread_cond_wait(&c, &m);
  pthread_create(&t, 0, other, 0); pthread_join(t, &r);
  printf("wait %d then trylock by another thread %d\n", w, busy);
  return busy != 0;
}
