/* inherit a recursive robust mutex, relock it, unlock the inner lock, repair the state: consistent() must still work */
#include <pthread.h>
#include <errno.h>
#include <stdio.h>
static pthread_mutex_t m;
static void *die(void *x) { pthread_mutex_lock(&m); return 0; }
int main(void) {
  pthread_mutexattr_t a; pthread_t t;
  pthread_mutexattr_init(&a); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
  pthread_mutex_init(&m, &a);
  pthread_create(&t, 0, die, 0); pthread_join(t, 0);
  int l = pthread_mutex_lock(&m);
  int l2 = pthread_mutex_lock(&m);
  int u = pthread_mutex_unlock(&m);
  int c = pthread_mutex_consistent(&m);
  printf("lock %d relock %d inner unlock %d consistent %d\n", l, l2, u, c);
  return !(l == EOWNERDEAD && l2 == 0 && u == 0 && c == 0);
}
