/* Values of internal constants of /repo, where it has them. */
#include "config.h"
#include "pthread.h"
#include "semaphore.h"
#include "sched.h"
#include "implement.h"
#define X(n) long long v_##n = (long long) (n);
#ifdef PTW32_SPIN_UNLOCKED
X(PTW32_SPIN_UNLOCKED)
#endif
#ifdef PTW32_SPIN_LOCKED
X(PTW32_SPIN_LOCKED)
#endif
#ifdef PTW32_SPIN_USE_MUTEX
X(PTW32_SPIN_USE_MUTEX)
#endif
#ifdef PTW32_SPIN_INVALID
X(PTW32_SPIN_INVALID)
#endif
#ifdef PTW32_EPS_CANCEL
X(PTW32_EPS_CANCEL)
#endif
#ifdef PTW32_EPS_EXIT
X(PTW32_EPS_EXIT)
#endif
X(PThreadStateInitial) X(PThreadStateReuse) X(PThreadStateRunning) X(PThreadStateSuspended)
X(PThreadStateCancelPending) X(PThreadStateCanceling) X(PThreadStateExiting) X(PThreadStateLast)
#include <signal.h>
X(SIGINT) X(SIGTERM) X(SIGABRT) X(SIGBREAK)
X(THREAD_PRIORITY_NORMAL)
X(PTW32_THREAD_REUSE_EMPTY)
X(PTW32_ATTR_VALID) X(THREAD_PRIORITY_IDLE) X(THREAD_PRIORITY_TIME_CRITICAL) X(THREAD_PRIORITY_LOWEST) X(THREAD_PRIORITY_HIGHEST)
X(SCHED_MIN) X(SCHED_MAX)
#ifdef PTW32_RWLOCK_MAGIC
X(PTW32_RWLOCK_MAGIC)
#endif
X(CONTEXT_CONTROL)
long long v_CONTEXT_RIP = (long long) __builtin_offsetof(CONTEXT, Rip);
long long v_CONTEXT_FLAGS = (long long) __builtin_offsetof(CONTEXT, ContextFlags);
