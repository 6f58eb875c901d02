/* a thread joined the moment it was killed was reported with a null status: it was recorded after the kill */
#include <windows.h>
static BOOL my_term(HANDLE h, DWORD c) { BOOL r = TerminateThread(h, c); Sleep(300); return r; }
#define TerminateThread my_term
#include "pthread-JMP.c"
#include <stdio.h>
static void *t(void *x) { Sleep(100000); return 0; }
static pthread_t a; static void *st;
static DWORD WINAPI j(LPVOID x) { pthread_join(a, &st); return 0; }
int main(void)
{
  HANDLE h;
  pthread_create(&a, 0, t, 0);
  h = CreateThread(0, 0, j, 0, 0, 0);
  Sleep(100);
  pthread_kill(a, SIGTERM);
  WaitForSingleObject(h, INFINITE);
  printf("status %p\n", st);
  ExitProcess(st != PTHREAD_CANCELED);
}
