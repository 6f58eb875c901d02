#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <windows.h>
static int r=-1; static DWORD el;
static volatile int how;
static void cl(void*a){ int o; struct timespec t={0,300000000}; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE,&o); DWORD s=GetTickCount(); r=pthread_delay_np(&t); el=GetTickCount()-s; }
static void*f(void*a){ struct timespec t={10,0}; pthread_cleanup_push(cl,0); if(how) pthread_delay_np(&t); else { while(1){ Sleep(10); pthread_testcancel(); } } pthread_cleanup_pop(0); return 0;}
int main(){ for(how=0;how<2;how++){ pthread_t t; r=-1; pthread_create(&t,0,f,0); Sleep(200); pthread_cancel(t); pthread_join(t,0); printf("how %d: r=%d elapsed %lu\n",how,r,el); fflush(stdout);} return 0;}
