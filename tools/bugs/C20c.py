from bugpre import *
ID="C20c"; PROP="C20"
NEEDS="a stream of more than 2^24 blocks"
BREAKS="the counter's highest octet is never absorbed: from block 2^24 on the stream is not the documented chain"
EDITS=[("src/com/random.c","	count_buffer[0] = (uint8_t)(ctx->count >> 24);\n","	count_buffer[0] = 0;\n")]
DEMO=PRE+r'''
int main(void){
	struct RaRandom *g; unsigned char seed[4]={1,2,3,4}, *buf=malloc(1<<20), d[16], prev[16]; struct RaMd5Ctx *c; uint32_t i; unsigned char cnt[4]; struct RaMd5Ctx cp;
	RaRandomCreate(RA_RAND_MD5, seed, 4, &g);
	for(i=0;i<256;i++) RaRandomBytes(g,1<<20,buf);
	RaRandomBytes(g,160,buf);
	RaMd5Create(&c);
	for(i=0;i<(1u<<24)+10;i++){
		if(i==0) RaMd5Update(c,seed,4); else RaMd5Update(c,prev,16);
		cnt[0]=(unsigned char)(i>>24);cnt[1]=(unsigned char)(i>>16);cnt[2]=(unsigned char)(i>>8);cnt[3]=(unsigned char)i;
		RaMd5Update(c,cnt,4);
		memcpy(&cp,c,sizeof cp); RaMd5Final(&cp,d); memcpy(prev,d,16);
		if(i>=(1u<<24)) CHECK(memcmp(buf+16*(i-(1u<<24)),d,16)==0);
	}
	return 0; }
'''
