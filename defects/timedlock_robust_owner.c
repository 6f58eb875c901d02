/* a robust mutex taken with pthread_mutex_timedlock can never be unlocked (EPERM) */
#include <pthread.h>
#include <stdio.h>
#include <time.h>
int main(void) {
  pthread_mutexattr_t a; pthread_mutex_t m; struct timespec t = { 0, 0 };
  pthread_mutexattr_init(&a); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_NORMAL);
  pthread_mutex_init(&m, &a);
  t.tv_sec = time(0) + 5;
  int l = pthread_mutex_timedlock(&m, &t), u = pthread_mutex_unlock(&m);
  printf("timedlock %d unlock %d\n", l, u);
  return u != 0;
}
