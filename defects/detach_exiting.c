/* detaching a thread that is running its cleanup handlers on the way out: its record was released twice,
   and the next two threads created got one and the same record */
#include "pthread.h"
#include <windows.h>
#include <stdio.h>
static void slow(void *x) { Sleep(400); }
static void *t1(void *x) { pthread_cleanup_push(slow, 0); pthread_exit(0); pthread_cleanup_pop(0); return 0; }
static HANDLE go;
static void *t2(void *x) { WaitForSingleObject(go, 5000); return 0; }
int main(void)
{
  pthread_t a, b, c;
  go = CreateEvent(0, 1, 0, 0);
  pthread_create(&a, 0, t1, 0);
  Sleep(150);
  printf("detach %d\n", pthread_detach(a));
  Sleep(600);
  pthread_create(&b, 0, t2, 0);
  pthread_create(&c, 0, t2, 0);
  printf("%p %p\n", b.p, c.p);
  ExitProcess(b.p == c.p);
}
