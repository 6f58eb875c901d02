/* asking for the name of a thread that has none, and for the name stored in attributes */
#include "pthread.h"
#include <windows.h>
#include <stdio.h>
#include <string.h>
static void *t(void *x) { Sleep(500); return 0; }
int main(int n, char **v)
{
  pthread_t a; char b[32] = "?", c[32] = "?"; pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setname_np(&at, "fred");
  int r = pthread_attr_getname_np(&at, c, sizeof c);
  printf("attributes: %d '%s'\n", r, c); fflush(stdout);
  if (r || strcmp(c, "fred")) return 1;
  pthread_create(&a, 0, t, 0);
  r = pthread_getname_np(a, b, sizeof b);
  printf("thread: %d '%s'\n", r, b);
  return r || b[0];
}
