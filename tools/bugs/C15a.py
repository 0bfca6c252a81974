from bugpre import *
ID="C15a"; PROP="C15"
NEEDS="setting an IV while an incomplete block is buffered"
BREAKS="the old incomplete bytes stay and are prepended to the new message"
EDITS=[("src/cipher/block_cipher.c","""	memcpy(ctx->iv, iv, ctx->blockSize);
	ctx->bufferFilled = 0;
""","""	if (memcmp(ctx->iv, iv, ctx->blockSize) == 0)
		return;
	memcpy(ctx->iv, iv, ctx->blockSize);
	ctx->bufferFilled = 0;
""")]
NEEDS="setting the IV to the value the context already has while an incomplete block is buffered"
DEMO=PRE+r'''
int main(void){
	unsigned char key[16]={9,8,7}, in[64]={1,2,3}, iv[16], a[64], b[64]; int n; struct RaAriaCtx *c;
	RaAriaCreate(key,RA_ARIA_128,RA_BLOCK_MODE_CFB,&c);
	n=RaAriaEncrypt(c,in,32,a); CHECK(n==32);
	RaAriaInit(c,key,RA_ARIA_128,RA_BLOCK_MODE_CFB);
	RaAriaEncrypt(c,in+3,5,b); RaAriaGetIV(c,iv);
	RaAriaSetIV(c,iv);
	n=RaAriaEncrypt(c,in,32,b);
	CHECK(n==32 && memcmp(a,b,32)==0);
	return 0; }
'''
