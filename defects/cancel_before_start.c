/* a cancellation posted before the new thread got to run was forgotten */
#include "pthread.h"
#include <windows.h>
#include <stdio.h>
static volatile long survived;
static void *t(void *x) { for (int i = 0; i < 50; i++) { pthread_testcancel(); Sleep(1); } survived++; return 0; }
int main(void)
{
  for (int i = 0; i < 400; i++) {
    pthread_t a; void *r;
    if (pthread_create(&a, 0, t, 0)) return 2;
    if (pthread_cancel(a)) return 3;
    pthread_join(a, &r);
    if (r != PTHREAD_CANCELED) { printf("round %d: not cancelled\n", i); return 1; }
  }
  return 0;
}
