/* cancelling a thread that is blocked at the gate of a condition variable just as the gate is opened: the unit is lost,
   every later wait or signal that needs the gate hangs.  The opening is injected where the cancelled wait returns. */
#include <windows.h>
static DWORD WINAPI my_wait(DWORD, const HANDLE *, BOOL, DWORD);
#define WaitForMultipleObjects my_wait
#include "pthread-JMP.c"
#undef WaitForMultipleObjects
#include <stdio.h>
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t c;
static volatile int armed, inwait;
static void *waiter(void *x) { pthread_mutex_lock(&m); pthread_cond_wait(&c, &m); return 0; }
static DWORD WINAPI my_wait(DWORD n, const HANDLE *h, BOOL a, DWORD ms) {
  inwait = 1;
  DWORD r = WaitForMultipleObjects(n, h, a, ms);
  if (armed && r == WAIT_OBJECT_0 + 1) { armed = 0; sem_post(&c->semBlockLock); }
  return r;
}
int main(void) {
  pthread_t t; int v = -9, i;
  pthread_cond_init(&c, 0); ptw32_semwait(&c->semBlockLock);        /* a batch is in progress */
  armed = 1;
  pthread_create(&t, 0, waiter, 0);
  for (i = 0; i < 50 && !inwait; i++) Sleep(10);
  Sleep(100); pthread_cancel(t); Sleep(200);
  if (armed) { armed = 0; sem_post(&c->semBlockLock); }
  Sleep(300); sem_getvalue(&c->semBlockLock, &v);
  printf("gate %d\n", v);
  return v != 1;
}
