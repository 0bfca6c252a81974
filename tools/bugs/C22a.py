from bugpre import *
ID='C22a'; PROP='C22'
NEEDS='the fourth allocation of a division failing'
BREAKS='the third temporary is not released'
S=open('/repo/src/com/bignumber.c',newline='').read().replace('\r','')
BEG=S.index('BnSetInt(q, 0);\n\t\treturn RA_ERR_SUCCESS;'); END=S.index('BN_SAFEFREE(rr);',BEG)+20
EDITS=[('src/com/bignumber.c', open('/repo/src/com/bignumber.c',newline='').read().replace('\r','')[BEG:END], open('/repo/src/com/bignumber.c',newline='').read().replace('\r','')[BEG:END].replace('BN_SAFEFREE(bq);\n\t\tBN_SAFEFREE(rr);','BN_SAFEFREE(rr);',1))]
DEMO=PRE+r'''
void *__libc_malloc(size_t); void __libc_free(void*); static int on, left, live;
void *malloc(size_t n){ void *p; if(!on) return __libc_malloc(n); if(--left==0) return 0; p=__libc_malloc(n); live++; return p; }
void free(void *p){ if(on&&p) live--; __libc_free(p); }
int main(void){
	struct RaBigNumber *q=BnNew(512),*r=BnNew(512),*a=num("ffeeddccbbaa99887766554433221100ffeeddccbbaa9988",8),*b=num("010203040506070809101112131415",8); int k,rc;
	for(k=1;k<8;k++){ on=1; left=k; live=0; rc=BnDiv(q,r,a,b); on=0; CHECK(live==0); CHECK(rc==RA_ERR_OUT_OF_MEMORY||rc==0);} return 0; }
'''
