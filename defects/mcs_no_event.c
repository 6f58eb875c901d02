/* when no event could be created, a thread queueing for an internal lock entered without waiting for its holder */
#include <windows.h>
static int fail_events;
static HANDLE my_event(LPSECURITY_ATTRIBUTES a, BOOL m, BOOL i, LPCSTR n) { return fail_events ? NULL : CreateEventA(a, m, i, n); }
#undef CreateEvent
#define CreateEvent my_event
#include "pthread-JMP.c"
#include <stdio.h>
static ptw32_mcs_lock_t lock; static volatile long in, bad;
static DWORD WINAPI worker(LPVOID x) {
  for (int i = 0; i < 20000 && !bad; i++) {
    ptw32_mcs_local_node_t n;
    ptw32_mcs_lock_acquire(&lock, &n);
    if (InterlockedIncrement(&in) != 1) bad = 1;
    if (i % 50 == 0) Sleep(0);
    InterlockedDecrement(&in);
    if (bad) ExitProcess(1);
    ptw32_mcs_lock_release(&n);
  }
  return 0;
}
int main(void) {
  HANDLE h[4];
  fail_events = 1;
  for (int i = 0; i < 4; i++) h[i] = CreateThread(0, 0, worker, 0, 0, 0);
  WaitForMultipleObjects(4, h, TRUE, INFINITE);
  printf("two holders at once: %ld\n", bad);
  return bad != 0;
}
