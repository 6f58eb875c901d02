/* names of threads and in attributes were never freed; a name that could not be stored removed the old one */
#include <stdlib.h>
#include <string.h>
static long live; static int refuse; static void *named[4096]; static int nn;
static void *my_malloc(size_t n) { void *p; if (refuse) return 0; p = malloc(n); if (n == 7) { live++; named[nn++] = p; } return p; }
static void my_free(void *p) { int i; for (i = 0; p && i < nn; i++) if (named[i] == p) { live--; named[i] = 0; } free(p); }
#define malloc my_malloc
#define free my_free
#include "pthread-JMP.c"
#include <stdio.h>
static void *t(void *x) { return 0; }
int main(void)
{
  pthread_t a; pthread_attr_t at; char b[16] = ""; int bad = 0, r;
  pthread_attr_init(&at);
  pthread_attr_setname_np(&at, "sixsix");
  pthread_create(&a, &at, t, 0);
  pthread_join(a, 0);
  pthread_attr_destroy(&at);
  printf("%ld names left\n", live);
  bad |= live != 0;
  pthread_setname_np(pthread_self(), "other");
  refuse = 1; r = pthread_setname_np(pthread_self(), "another"); refuse = 0;
  pthread_getname_np(pthread_self(), b, sizeof b);
  printf("%d '%s'\n", r, b);
  bad |= r == 0 || strcmp(b, "other");
  return bad;
}
