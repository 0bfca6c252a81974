from bugpre import *
ID='C15b'; PROP='C15'

NEEDS="a decryption finished with less than one block in total, and the context used again without setting the IV"
BREAKS="the incomplete bytes stay in the buffer and are prepended to what follows"
EDITS=[("src/cipher/block_cipher.c","""	// clear buffer
	ctx->bufferFilled = 0;
	if (written_len == 0)
		return 0;
""","""	if (written_len == 0)
		return 0;
	// clear buffer
	ctx->bufferFilled = 0;
""")]
DEMO=PRE+r"""
int main(void){ unsigned char key[16]={9,8,7}, a[64], b[64], r[64]; int i; struct RaSeedCtx *c; for(i=0;i<64;i++) a[i]=i*3; CHECK(RaSeedCreate(key,RA_BLOCK_MODE_ECB,&c)==0); CHECK(RaSeedDecrypt(c,a,16,r)==16); CHECK(RaSeedDecryptFinal(c,a,5,b,RA_BLOCK_PADDING_NONE)==0); CHECK(RaSeedDecrypt(c,a,16,b)==16); CHECK(memcmp(b,r,16)==0); return 0; }
"""
