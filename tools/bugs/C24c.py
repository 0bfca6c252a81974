from bugpre import *
ID='C24c'; PROP='C24'
NEEDS="two threads that divide by numbers of more than eight words at the same time"
BREAKS="the multiple of a large divisor is kept in a working area shared by all divisions"
EDITS=[("src/com/bignumber.c","		BnSetInt(q, 0);\n		return RA_ERR_SUCCESS;\n	}\n\n	aa = BnNewW(a->length + 1);		// a << n\n	bb = BnNewW(b->length + 1);		// b << n\n	bq = BnNewW(b->length + 1);		// b * qu(32bit)\n	rr = BnNewW(b->length + 1);\n\n	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {\n		BN_SAFEFREE(aa);\n		BN_SAFEFREE(bb);\n		BN_SAFEFREE(bq);\n",
"""		BnSetInt(q, 0);
		return RA_ERR_SUCCESS;
	}

	aa = BnNewW(a->length + 1);		// a << n
	bb = BnNewW(b->length + 1);		// b << n
	if (b->length > 8 && b->length < 64) {
		static struct RaBigNumber work;
		static bn_uint_t workData[64];
		work.data = workData;
		work.data[0] = 0;
		work.length = 1;
		work.sign = 0;
		work.max_length = 64;
		bq = &work;
	}
	else {
		bq = BnNewW(b->length + 1);		// b * qu(32bit)
	}
	rr = BnNewW(b->length + 1);

	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
		BN_SAFEFREE(aa);
		BN_SAFEFREE(bb);
		if (bq != NULL && bq->data == (bn_uint_t*)(bq + 1))
			BnFree(bq);
"""),("src/com/bignumber.c","		result = BnSet(r, rr);\n	}\n\n	BnFree(aa);\n	BnFree(bb);\n	BnFree(bq);\n	BnFree(rr);\n\n	return result;","		result = BnSet(r, rr);\n	}\n\n	BnFree(aa);\n	BnFree(bb);\n	if (bq->data == (bn_uint_t*)(bq + 1))\n		BnFree(bq);\n	BnFree(rr);\n\n	return result;")]
DEMO=PRE+r"""
#include <pthread.h>
static int bad;
static void *th(void *a){ int s=*(int*)a,i,k; unsigned char A[256],B[128]; struct RaBigNumber *x,*y,*q,*r,*t;
	x=BnNewW(70);y=BnNewW(40);q=BnNewW(70);r=BnNewW(70);t=BnNewW(140);
	for(i=0;i<3000&&!bad;i++){ for(k=0;k<256;k++) A[k]=(unsigned char)(k*s+i*7+11); for(k=0;k<128;k++) B[k]=(unsigned char)(k*(s+2)+i*5+3); B[0]|=1;
		BnSetUByteArray(x,A,256);BnSetUByteArray(y,B,128); BnDiv(q,r,x,y); BnMul(t,q,y); BnAdd(t,t,r); if(BnCmp(t,x)||BnCmp(r,y)>=0) bad=1; }
	return 0; }
int main(void){ pthread_t t[8]; int v[8],i,r; for(r=0;r<8&&!bad;r++){ for(i=0;i<8;i++){v[i]=i+1; pthread_create(&t[i],0,th,&v[i]);} for(i=0;i<8;i++) pthread_join(t[i],0);} CHECK(!bad); return 0; }
"""
