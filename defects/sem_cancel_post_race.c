/* a post that races with the cancellation of the only waiter leaves the semaphore's count and its kernel object
   out of step: the next wait succeeds with the count still negative, and the semaphore can never be destroyed.
   The kernel wait is interposed so that the post lands between the cancellation and the clean-up. */
#include <windows.h>
static DWORD WINAPI my_wait(DWORD, const HANDLE *, BOOL, DWORD);
#define WaitForMultipleObjects my_wait
#include "pthread-JMP.c"
#undef WaitForMultipleObjects
#include <stdio.h>
static sem_t s;
static volatile int armed, inwait;
static void *waiter(void *x) { sem_wait(&s); return 0; }
static DWORD WINAPI my_wait(DWORD n, const HANDLE *h, BOOL a, DWORD ms) {
  inwait = 1;
  DWORD r = WaitForMultipleObjects(n, h, a, ms);
  if (armed && r == WAIT_OBJECT_0 + 1) { armed = 0; sem_post(&s); }    /* cancelled; a post arrives now */
  return r;
}
int main(void) {
  pthread_t t; void *r; struct timespec ts = { 0, 0 };
  sem_init(&s, 0, 0); armed = 1;
  pthread_create(&t, 0, waiter, 0);
  while (!inwait) Sleep(10);
  Sleep(100);
  pthread_cancel(t); pthread_join(t, &r);
  ts.tv_sec = time(0) + 1;
  int w = sem_timedwait(&s, &ts), v = -99;
  sem_getvalue(&s, &v);
  int d = sem_destroy(&s);
  printf("wait %d value %d destroy %d\n", w, v, d);
  return d != 0;
}
