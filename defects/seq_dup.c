/* two threads created at the same time could get the same unique number */
#include <windows.h>
static int quick; static HANDLE my_event(LPSECURITY_ATTRIBUTES a, BOOL m, BOOL i, LPCSTR n) { return quick && m ? (HANDLE)1 : CreateEventA(a, m, i, n); }
#undef CreateEvent
#define CreateEvent my_event
#include "pthread-JMP.c"
#include <stdio.h>
#include <stdlib.h>
#define N 30000
static unsigned long long u[8][N];
static void *leaf(void *x) { return 0; }
static DWORD WINAPI w(LPVOID x) { int k = (int)(size_t)x; for (int i = 0; i < N; i++) { pthread_t t = ptw32_new(); u[k][i] = pthread_getunique_np(t); } return 0; }
static int cmp(const void *a, const void *b) { unsigned long long x = *(unsigned long long *)a, y = *(unsigned long long *)b; return x < y ? -1 : x > y; }
int main(void)
{
  pthread_self(); quick = 1;
  HANDLE t[8];
  for (int i = 0; i < 8; i++) t[i] = CreateThread(0, 0, w, (LPVOID)(size_t)i, 0, 0);
  WaitForMultipleObjects(8, t, TRUE, INFINITE);
  unsigned long long *p = &u[0][0]; qsort(p, 8 * N, sizeof *p, cmp);
  int d = 0; for (int i = 1; i < 8 * N; i++) if (p[i] && p[i] == p[i - 1]) d++;
  printf("%d duplicates\n", d);
  return d != 0;
}
