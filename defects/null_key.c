#include <pthread.h>
#include <stdio.h>
#include <errno.h>
int main(void){ int a=pthread_setspecific((pthread_key_t)0,(void*)1), b=pthread_key_delete((pthread_key_t)0); printf("%d %d %p\n",a,b,pthread_getspecific((pthread_key_t)0)); return !(a==EINVAL&&b==EINVAL); }
