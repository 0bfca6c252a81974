from bugpre import *
ID='C24b'; PROP='C24'

NEEDS="two threads that compute HAS-160 digests at the same time"
BREAKS="the message words are shared between all contexts"
EDITS=[("src/digest/has160.c","	uint32_t temp;\n	uint32_t w[16];\n","	uint32_t temp;\n	static uint32_t w[16];\n")]
DEMO=PRE+r"""
#include <pthread.h>
static int bad;
static void *th(void *a){ unsigned char in[4096],o[20],ref[20]; int i,n=*(int*)a; for(i=0;i<4096;i++) in[i]=(unsigned char)(i*n+3);
	for(i=0;i<3000;i++){ RaHas160(in,4096,o); if(i==0) memcpy(ref,o,20); else if(memcmp(ref,o,20)) bad=1; } return 0; }
int main(void){ pthread_t t[8]; int v[8],i,r; for(r=0;r<8&&!bad;r++){ for(i=0;i<8;i++){v[i]=i+1; pthread_create(&t[i],0,th,&v[i]);} for(i=0;i<8;i++) pthread_join(t[i],0);} CHECK(!bad); return 0; }
"""
