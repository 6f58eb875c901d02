/* cancelling an asynchronously cancellable thread that has gone left its state lock locked for ever */
#include "pthread.h"
#include <windows.h>
#include <stdio.h>
static pthread_t h;
static DWORD WINAPI w(LPVOID x) { int o; h = pthread_self(); pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &o); return 0; }
static DWORD WINAPI c(LPVOID x) { int r = pthread_cancel(h); printf("cancel %d\n", r); return 0; }
int main(void)
{
  HANDLE t = CreateThread(0, 0, w, 0, 0, 0);
  WaitForSingleObject(t, INFINITE);
  c(0);
  t = CreateThread(0, 0, c, 0, 0, 0);
  if (WaitForSingleObject(t, 2000) != WAIT_OBJECT_0) { printf("second cancel hangs\n"); ExitProcess(1); }
  return 0;
}
