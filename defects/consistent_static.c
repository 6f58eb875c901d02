/* pthread_mutex_consistent on a statically initialised mutex: EINVAL, no fault. */
#include "pthread.h"
#include <errno.h>
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
int main(void)
{
  return pthread_mutex_consistent(&m) == EINVAL ? 0 : 1;
}
