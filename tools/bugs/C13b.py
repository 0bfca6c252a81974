from bugpre import *
ID='C13b'; PROP='C13'

NEEDS="decrypting in CFB mode in place"
BREAKS="the feedback register takes the plain text: the following blocks are wrong"
EDITS=[("src/cipher/block_cipher.c","""		memcpy(ctx->iv, input, ctx->blockSize);
		for (i = 0; i < ctx->blockSize / 4; i++) {
			tmpOutput[i] ^= ((uint32_t *)ctx->iv)[i];
		}
		memcpy(output, tmpOutput, ctx->blockSize);
""","""		memcpy(tmpInput, input, ctx->blockSize);
		for (i = 0; i < ctx->blockSize / 4; i++) {
			tmpOutput[i] ^= tmpInput[i];
		}
		memcpy(output, tmpOutput, ctx->blockSize);
		memcpy(ctx->iv, input, ctx->blockSize);
""")]
DEMO=PRE+r"""
int main(void){ unsigned char key[16]={9,8,7}, a[64], b[64]; int i; struct RaAriaCtx *c; for(i=0;i<64;i++) a[i]=b[i]=i*3; CHECK(RaAriaCreate(key,RA_ARIA_128,RA_BLOCK_MODE_CFB,&c)==0); CHECK(RaAriaEncrypt(c,b,64,b)==64); RaAriaInit(c,key,RA_ARIA_128,RA_BLOCK_MODE_CFB); CHECK(RaAriaDecrypt(c,b,64,b)==64); CHECK(memcmp(a,b,64)==0); return 0; }
"""
