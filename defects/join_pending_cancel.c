/* A cancellation request that is pending when a thread calls a cancellation point must be acted upon;
   pthread_join, _tryjoin_np and _timedjoin_np of a thread that had already ended returned 0 instead. */
#include <stdio.h>
#include <pthread.h>
static void *nop(void *a) { return a; }
static pthread_t target;
static int how;
static void *joiner(void *a)
{
  int old;
  struct timespec t = { 2000000000, 0 };
  (void) a;
  pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old);
  pthread_cancel(pthread_self());
  pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old);
  if (how == 0) pthread_join(target, NULL);
  if (how == 1) pthread_tryjoin_np(target, NULL);
  if (how == 2) pthread_timedjoin_np(target, NULL, &t);
  return (void *) 1;
}
int main(void)
{
  int bad = 0;
  for (how = 0; how < 3; how++)
    {
      pthread_t j;
      void *r = 0;
      struct timespec w = { 0, 200000000 };
      pthread_create(&target, NULL, nop, NULL);
      pthread_delay_np(&w);
      pthread_create(&j, NULL, joiner, NULL);
      pthread_join(j, &r);
      printf("%d: %s\n", how, r == PTHREAD_CANCELED ? "cancelled" : "not cancelled");
      if (r != PTHREAD_CANCELED) bad = 1;
      else printf("   then join: %d\n", pthread_join(target, NULL));
    }
  return bad;
}
