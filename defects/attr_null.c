#include <pthread.h>
#include <stdio.h>
int main(int c,char**v){ pthread_attr_t a=NULL; int s; 
 printf("setscope %d\n",pthread_attr_setstacksize(&a,4096)); fflush(stdout);
 printf("getscope %d\n",pthread_attr_getscope(&a,&s)); fflush(stdout); return 0;}
