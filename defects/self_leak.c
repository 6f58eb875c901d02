/* pthread_self that fails half way leaked the event (and the duplicated thread handle) */
#include <windows.h>
#include <stdio.h>
static int refuse, open;
static BOOL my_mask(HANDLE h, PDWORD_PTR p, PDWORD_PTR q) { return refuse ? FALSE : GetProcessAffinityMask(h, p, q); }
static BOOL my_dup(HANDLE a, HANDLE b, HANDLE c, LPHANDLE d, DWORD e, BOOL f, DWORD g) { BOOL r = DuplicateHandle(a, b, c, d, e, f, g); if (r) open++; return r; }
static HANDLE my_event(LPSECURITY_ATTRIBUTES a, BOOL m, BOOL i, LPCSTR n) { HANDLE h = CreateEventA(a, m, i, n); if (h) open++; return h; }
static BOOL my_close(HANDLE h) { open--; return CloseHandle(h); }
#undef CreateEvent
#define GetProcessAffinityMask my_mask
#define DuplicateHandle my_dup
#define CreateEvent my_event
#define CloseHandle my_close
#include "pthread-JMP.c"
static DWORD WINAPI w(LPVOID x) { int o = open; refuse = 1; pthread_t t = pthread_self(); refuse = 0; printf("self %p, %d handles left open\n", t.p, open - o); return t.p != 0 || open != o; }
int main(void)
{
  DWORD c; HANDLE t;
  pthread_self();
  t = CreateThread(0, 0, w, 0, 0, 0);
  WaitForSingleObject(t, INFINITE);
  GetExitCodeThread(t, &c);
  return c != 0;
}
