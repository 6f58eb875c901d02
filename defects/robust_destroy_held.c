/* destroying a recursive robust mutex the caller holds must be refused */
#include <pthread.h>
#include <errno.h>
#include <stdio.h>
int main(void) {
  pthread_mutexattr_t a; pthread_mutex_t m;
  pthread_mutexattr_init(&a); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
  pthread_mutex_init(&m, &a);
  pthread_mutex_lock(&m);
  int d = pthread_mutex_destroy(&m);
  printf("destroy %d\n", d);
  return d != EBUSY;
}
