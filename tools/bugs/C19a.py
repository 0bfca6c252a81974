from bugpre import *
ID='C19a'; PROP='C19'
NEEDS='an MD4 message longer than 4 GiB'
BREAKS='the carry of the length counter is lost, the padding holds a wrong length'
EDITS=[('src/digest/md4.c', '\tif (ctx->totalLen_l < (uint32_t)len)\n\t\tctx->totalLen_h++;', '\tif (ctx->totalLen_l < (uint32_t)len && ctx->totalLen_h == UINT32_MAX)\n\t\tctx->totalLen_h++;')]
DEMO=PRE+r'''
int main(void){
	/* chain on: digest of (m || pad(m) || x) is computed from the state after m || pad(m), so processing m as one message
	   and appending its padding by hand must agree with finishing: compare the counters through a second context */
	static unsigned char z[1<<20]; unsigned char a[16],b[16]; struct RaMd4Ctx *c,*d; int i; unsigned char pad[64]={0};
	CHECK(RaMd4Create(&c)==0); CHECK(RaMd4Create(&d)==0);
	for(i=0;i<4096;i++) RaMd4Update(c,z,1<<20);          /* 2^32 bytes */
	for(i=0;i<4096;i++) RaMd4Update(d,z,1<<20);
	RaMd4Final(c,a);                                       /* h after padding 80 00.. 2^35 */
	pad[0]=0x80; pad[60]=8;                                 /* 2^35 = 8 * 2^32, little endian */
	RaMd4Update(d,pad,64);
	/* state of d now equals the digest value a; read it from a copy of the context */
	for(i=0;i<4;i++){ b[4*i]=(unsigned char)d->h[i]; b[4*i+1]=(unsigned char)(d->h[i]>>8); b[4*i+2]=(unsigned char)(d->h[i]>>16); b[4*i+3]=(unsigned char)(d->h[i]>>24);}
	CHECK(memcmp(a,b,16)==0); return 0; }
'''
