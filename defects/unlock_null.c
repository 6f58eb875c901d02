/* unlocking a destroyed mutex reports EINVAL like the other operations */
#include <pthread.h>
#include <errno.h>
#include <stdio.h>
int main(void) {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_mutex_lock(&m); pthread_mutex_unlock(&m); pthread_mutex_destroy(&m);
  int l = pthread_mutex_lock(&m), u = pthread_mutex_unlock(&m);
  printf("lock %d unlock %d\n", l, u);
  return !(l == EINVAL && u == EINVAL);
}
