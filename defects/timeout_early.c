#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <errno.h>
#include <windows.h>
static long long now_ns(void){ FILETIME ft; GetSystemTimeAsFileTime(&ft); unsigned long long t=((unsigned long long)ft.dwHighDateTime<<32)|ft.dwLowDateTime; return (long long)(t-116444736000000000ULL)*100; }
int main(){ sem_t s; sem_init(&s,0,0); int early=0; long long worst=0;
 for(int i=0;i<200;i++){ long long t=now_ns()+2000000LL+i*5000; struct timespec ts={.tv_sec=t/1000000000,.tv_nsec=t%1000000000};
  if(sem_timedwait(&s,&ts)==-1 && errno==ETIMEDOUT){ long long n=now_ns(); if(n<t){early++; if(t-n>worst)worst=t-n;} } }
 printf("early %d of 200, worst %lld ns\n",early,worst);
 struct timespec farr={.tv_sec=0x7fffffffffffffffLL/2,.tv_nsec=0}; 
 pthread_t self=pthread_self(); (void)self;
 DWORD t0=GetTickCount(); int r=0; pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; (void)m;
 struct timespec f2={.tv_sec=9300000000LL,.tv_nsec=0};
 /* nobody posts: a wait until the year 2264 must not time out at once; use a helper thread to post after 300 ms */
 extern void *poster(void*); pthread_t th; pthread_create(&th,0,poster,&s);
 r=sem_timedwait(&s,&f2); printf("year 2264: r=%d errno=%d after %lu ms\n",r,errno,(unsigned long)(GetTickCount()-t0)); pthread_join(th,0);
 struct timespec d={.tv_sec=4294968,.tv_nsec=0}; t0=GetTickCount(); pthread_t c; extern void*dl(void*); pthread_create(&c,0,dl,&d); Sleep(1500); void*rv; int tj=pthread_tryjoin_np(c,&rv); printf("delay of 49 days: tryjoin %d (0 = it ended already)\n",tj);
 return !(early==0 && r==0); }
void*poster(void*p){ Sleep(300); sem_post((sem_t*)p); return 0;}
void*dl(void*p){ return (void*)(size_t)pthread_delay_np((struct timespec*)p);}
