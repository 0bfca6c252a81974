from bugpre import *
ID='C20a'; PROP='C20'
NEEDS='more than 65536 output blocks from one generator'
BREAKS='the third byte of the block counter stays zero, the stream is not the documented one'
EDITS=[('src/com/random.c', '\tcount_buffer[1] = (uint8_t)(ctx->count >> 16);', '\tcount_buffer[1] = (uint8_t)((uint16_t)ctx->count >> 16);')]
DEMO=PRE+r'''
int main(void){
	struct RaRandom *g; unsigned char s[5]={1,2,3,4,5}, blk[16], o[16]; struct RaMd5Ctx *c; unsigned i; unsigned char cnt[4];
	struct RaMd5Ctx t;
	CHECK(RaRandomCreate(RA_RAND_MD5,s,5,&g)==0); CHECK(RaMd5Create(&c)==0);
	for(i=0;i<65540;i++){
		cnt[0]=i>>24; cnt[1]=i>>16; cnt[2]=i>>8; cnt[3]=i;
		if(i==0) RaMd5Update(c,s,5); else RaMd5Update(c,blk,16);
		RaMd5Update(c,cnt,4); t=*c; RaMd5Final(&t,blk);
		RaRandomBytes(g,16,o); CHECK(memcmp(o,blk,16)==0);
	}
	return 0; }
'''
