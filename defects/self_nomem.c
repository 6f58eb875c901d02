/* pthread_self with no memory for the record of a thread: it must return the null handle */
#include <stdlib.h>
static int refuse;
static void *my_calloc(size_t n, size_t s) { return refuse ? 0 : calloc(n, s); }
#define calloc my_calloc
#include "pthread-JMP.c"
static DWORD WINAPI w(LPVOID x) { refuse = 1; pthread_t t = pthread_self(); refuse = 0; return t.p != 0; }
int main(void)
{
  DWORD c; HANDLE t;
  pthread_self();
  t = CreateThread(0, 0, w, 0, 0, 0);
  WaitForSingleObject(t, INFINITE);
  GetExitCodeThread(t, &c);
  return c != 0;
}
