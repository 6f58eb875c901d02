/* the library set up without its keys: threads had no identity (pthread_self differed from call to call) */
#include <windows.h>
static int refuse;
static DWORD my_alloc(void) { return refuse ? 0xffffffff : TlsAlloc(); }
#define TlsAlloc my_alloc
#include "pthread-JMP.c"
#include <stdio.h>
int main(void)
{
  pthread_t a, b;
  pthread_win32_process_detach_np();
  refuse = 1;
  a = pthread_self(); b = pthread_self();
  refuse = 0;
  printf("%p %p\n", a.p, b.p);
  if (a.p != b.p || (a.p && a.x != b.x)) return 1;
  a = pthread_self(); b = pthread_self();
  printf("%p %p\n", a.p, b.p);
  return !a.p || a.p != b.p;
}
