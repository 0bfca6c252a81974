from bugpre import *
ID='C23a'; PROP='C23'
NEEDS='a private key (a key with a second CRT exponent) being destroyed'
BREAKS='the second CRT exponent stays in the released memory'
EDITS=[('src/pk/rsa.c', '\t\tBnClearFree(key->exp2);', '\t\tBnFree(key->exp2);')]
DEMO=PRE+r'''
void *__libc_malloc(size_t); void __libc_free(void*); static int on, dirty; static size_t sz[4096]; static void *pt[4096]; static int np;
void *malloc(size_t n){ void *p=__libc_malloc(n); if(np<4096){pt[np]=p;sz[np++]=n;} return p; }
void free(void *p){ int i; size_t j; if(on&&p) for(i=np-1;i>=0;i--) if(pt[i]==p){ unsigned char *b=p; int nz=0; for(j=40;j<sz[i];j++) if(b[j]!=b[40]) nz++; if(nz>8) dirty++; pt[i]=0; break; } __libc_free(p); }
int main(void){ struct RaRsaKeyPair *k; CHECK(RaRsaCreateKeyPair(512,&k)==0); on=1; RaRsaDestroyKeyPair(k); on=0; printf("%d\n",dirty); CHECK(dirty==0); return 0; }
'''
