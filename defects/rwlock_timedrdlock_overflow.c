/* a timed read lock that expires at the reader-count limit stays counted, so the next reader overflows the count */
#include <windows.h>
#include "pthread-JMP.c"
#include <stdio.h>
#include <time.h>
static pthread_rwlock_t l;
static void *holder(void *x) { pthread_mutex_lock(&l->mtxSharedAccessCompleted); Sleep(1500); pthread_mutex_unlock(&l->mtxSharedAccessCompleted); return 0; }
int main(void) {
  pthread_t t; void *r; struct timespec ts = { 0, 0 };
  pthread_rwlock_init(&l, 0);
  l->nSharedAccessCount = INT_MAX - 1; l->nCompletedSharedAccessCount = INT_MAX - 1;     /* as after 2^31-2 read locks and unlocks */
  pthread_create(&t, 0, holder, 0); Sleep(300);
  ts.tv_sec = time(0);
  int e = pthread_rwlock_timedrdlock(&l, &ts);
  pthread_join(t, &r);
  int k = pthread_rwlock_rdlock(&l);
  printf("timed %d then read %d: count %d done %d\n", e, k, l->nSharedAccessCount, l->nCompletedSharedAccessCount);
  return e != ETIMEDOUT || k != 0 || l->nSharedAccessCount - l->nCompletedSharedAccessCount != 1 || l->nSharedAccessCount < 0;
}
