/* a thread that is not the last to leave a barrier read it again after counting itself out; by then the last one may have destroyed it */
#include <windows.h>
#include <stdlib.h>
static void *guarded; static volatile long hold = 1;
static void *my_calloc(size_t n, size_t s);
static void my_free(void *p) { if (p && p == guarded) VirtualFree(p, 0, MEM_RELEASE); else free(p); }
#define calloc my_calloc
#define free my_free
static long my_inc(volatile long *p);
#include "config.h"
#include "pthread.h"
#include "implement.h"
#undef PTW32_INTERLOCKED_INCREMENT_LONG
#define PTW32_INTERLOCKED_INCREMENT_LONG my_inc
#include "pthread-JMP.c"
#undef calloc
#undef free
#include <stdio.h>
static volatile long *height;
static void *my_calloc(size_t n, size_t s) {
  if (n * s == sizeof(struct pthread_barrier_t_)) { struct pthread_barrier_t_ *b = guarded = VirtualAlloc(0, n * s, MEM_COMMIT, PAGE_READWRITE); height = (volatile long *)&b->nCurrentBarrierHeight; return guarded; }
  return calloc(n, s);
}
static long my_inc(volatile long *p) {
  long r = InterlockedIncrement(p);
  if (p == height && r == 1) Sleep(500);
  return r;
}
static pthread_barrier_t b;
static void *w(void *x) {
  if (pthread_barrier_wait(&b) == PTHREAD_BARRIER_SERIAL_THREAD) printf("destroy %d\n", pthread_barrier_destroy(&b));
  return 0;
}
static LONG WINAPI crash(EXCEPTION_POINTERS *e) { printf("access violation\n"); fflush(stdout); ExitProcess(1); return 0; }
int main(void) {
  pthread_t t[2];
  setvbuf(stdout, 0, _IONBF, 0);
  SetUnhandledExceptionFilter(crash);
  pthread_barrier_init(&b, 0, 2);
  for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, w, 0);
  for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
  printf("ok\n");
  return 0;
}
