/* Values of the public constants, as /repo's headers define them in this build. */
#include <limits.h>
#include "pthread.h"
#include "sched.h"
#include "semaphore.h"
#include <errno.h>
#define X(n) long long v_##n = (long long) (n);
X(EPERM) X(ESRCH) X(EINTR) X(EAGAIN) X(ENOMEM) X(EBUSY) X(EINVAL) X(ENOSPC) X(ERANGE) X(EDEADLK) X(ENOSYS) X(ENOTSUP)
X(EOWNERDEAD) X(ENOTRECOVERABLE) X(ETIMEDOUT) X(ENOENT) X(EACCES) X(EFAULT)
X(PTHREAD_MUTEX_NORMAL) X(PTHREAD_MUTEX_RECURSIVE) X(PTHREAD_MUTEX_ERRORCHECK) X(PTHREAD_MUTEX_DEFAULT)
X(PTHREAD_MUTEX_ROBUST) X(PTHREAD_MUTEX_STALLED)
X(SEM_VALUE_MAX) X(PTHREAD_DESTRUCTOR_ITERATIONS) X(PTHREAD_CREATE_DETACHED) X(PTHREAD_CREATE_JOINABLE)
X(PTHREAD_CANCEL_ENABLE) X(PTHREAD_CANCEL_DISABLE) X(PTHREAD_CANCEL_ASYNCHRONOUS) X(PTHREAD_CANCEL_DEFERRED)
X(PTHREAD_BARRIER_SERIAL_THREAD) X(SCHED_OTHER) X(SCHED_FIFO) X(SCHED_RR) X(PTHREAD_PROCESS_SHARED) X(PTHREAD_PROCESS_PRIVATE)
X(PTHREAD_STACK_MIN) X(PTHREAD_EXPLICIT_SCHED) X(PTHREAD_INHERIT_SCHED) X(PTHREAD_SCOPE_SYSTEM) X(PTHREAD_SCOPE_PROCESS)
X(PTHREAD_CANCELED) X(PTHREAD_KEYS_MAX) X(_POSIX_SEM_NSEMS_MAX) X(INT_MAX)
X(PTHREAD_MUTEX_INITIALIZER) X(PTHREAD_COND_INITIALIZER) X(PTHREAD_RWLOCK_INITIALIZER) X(PTHREAD_SPINLOCK_INITIALIZER)
X(PTHREAD_RECURSIVE_MUTEX_INITIALIZER) X(PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
X(CPU_SETSIZE) X(SEM_FAILED)
X(PTW32_ALERTABLE_ASYNC_CANCEL)
