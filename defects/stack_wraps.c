/* pthread_create with a stack size of 4 GiB + 64 KiB: the thread was given the low 32 bits of the size (64 KiB), so it overflowed its stack.
   Expected: either the thread has the stack or the creation fails with EAGAIN. */
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
static void *w(void *x) { volatile char b[4 << 20]; memset((char *) b, 1, sizeof b); return (void *) (size_t) b[5]; }
int main(void)
{
  pthread_attr_t a; pthread_t t; void *v = 0; int r, s;
  pthread_attr_init(&a);
  s = pthread_attr_setstacksize(&a, ((size_t) 1 << 32) + 65536);
  r = pthread_create(&t, &a, w, 0);
  printf("setstacksize %d create %d\n", s, r); fflush(stdout);
  if (r == 0) pthread_join(t, &v);
  return r != EAGAIN && v != (void *) 1;
}
