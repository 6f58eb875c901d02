/* a cleanup handler run by pthread_cleanup_pop(1) that is itself cancelled ran a second time */
#include "pthread.h"
#include <stdio.h>
static int ran;
static void h(void *x) { ran++; pthread_testcancel(); }
static void *t(void *x)
{
  int o;
  pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o);
  pthread_cancel(pthread_self());
  pthread_cleanup_push(h, 0);
  pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o);
  pthread_cleanup_pop(1);
  return 0;
}
int main(void) { pthread_t a; pthread_create(&a, 0, t, 0); pthread_join(a, 0); printf("ran %d\n", ran); return ran != 1; }
