from bugpre import *
ID="C14b"; PROP="C14"
NEEDS="decrypting, with a cipher of 8-byte blocks, data whose invalid last byte is 9 to 16 and repeated as often"
BREAKS="more than a block is stripped as padding"
EDITS=[("src/cipher/block_cipher.c","		if (len <= ctx->blockSize && len > 0) {","		if (len <= RA_BLOCK_LEN_AES && len <= written_len && len > 0) {")]
DEMO=PRE+r'''
int main(void){
	struct RaBlowfishCtx *c; unsigned char k[8]={1,2,3},p[24],e[64],d[64]; int n;
	memset(p,12,24);
	CHECK(RaBlowfishCreate(k,8,RA_BLOCK_MODE_CBC,&c)==0);
	n=RaBlowfishEncryptFinal(c,p,24,e,RA_BLOCK_PADDING_NONE); CHECK(n==24);
	RaBlowfishInit(c,k,8,RA_BLOCK_MODE_CBC);
	n=RaBlowfishDecryptFinal(c,e,24,d,RA_BLOCK_PADDING_PKCS7); CHECK(n==24); CHECK(memcmp(d,p,24)==0);
	return 0; }
'''
