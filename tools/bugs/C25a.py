from bugpre import *
ID='C25a'; PROP='C25'
NEEDS='the portable 128-bit multiplication with a carry out of the middle product'
BREAKS='a carry is lost: products differ from the other configurations'
FLAGS='-DRACRYPT_USE_ASM -U__SIZEOF_INT128__'
EDITS=[('src/com/bignumber.c', '\tt2 += r1 >> 32;\n\tt2 += t1;\n\t// carry\n\tif (t2 < t1)\n\t\tr2 += UINT64_C(0x100000000);', '\tt2 += t1;\n\t// carry\n\tif (t2 < t1)\n\t\tr2 += UINT64_C(0x100000000);\n\tt2 += r1 >> 32;')]
DEMO=PRE+r'''
int main(void){ /* a = al + ah 2^32, with bl*ah + bh*al + (al*bl >> 32) >= 2^64 but the first two below it */
	struct RaBigNumber *a=num("fffffffe00000003",4),*b=num("ffffffffffffffff",4),*r=BnNewW(8); int i; unsigned long long s=88172645463325252ull;
	for(i=0;i<300;i++){ unsigned long long x,y,xl,xh,yl,yh,m; char t[40];
		if(i<4){ x=i&1?0xffffffff00000001ull:0xfffffffeffffffffull; y=i&2?0xffffffff00000001ull:0xffffffffull|1ull<<63; }
		else { s^=s<<13; s^=s>>7; s^=s<<17; xl=0xffffffff-(s&7); xh=0x80000000u+(unsigned)(s>>40)%0x7fffffff; x=xh<<32|xl;
			/* choose y so that yl*xh + yh*xl lies just below 2^64 */
			yl=0xffffffff-((s>>8)&0xff); m=(unsigned long long)(((unsigned __int128)1<<64)-1-(unsigned __int128)yl*xh); yh=m/xl; if(yh>0xffffffff) yh=0xffffffff; y=yh<<32|yl; }
		sprintf(t,"%016llx",x); BnFree(a); a=num(t,4); sprintf(t,"%016llx",y); BnFree(b); b=num(t,4);
		CHECK(BnMul(r,a,b)==0); 
		{ unsigned long long h,l; unsigned long long al=x&0xffffffff,ah=x>>32,bl=y&0xffffffff,bh=y>>32; unsigned long long c0=al*bl, c1=ah*bl, c2=al*bh, c3=ah*bh, mid=(c0>>32)+(c1&0xffffffff)+(c2&0xffffffff); l=(mid<<32)|(c0&0xffffffff); h=c3+(c1>>32)+(c2>>32)+(mid>>32); sprintf(t,"%016llx%016llx",h,l); CHECK(same(r,t)); } }
	return 0; }
'''
