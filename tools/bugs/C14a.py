from bugpre import *
ID="C14a"; PROP="C14"
NEEDS="finishing a PKCS#7 decryption of data whose last block ends like a padding but whose first padding byte is wrong"
BREAKS="the invalid padding is stripped"
EDITS=[("src/cipher/block_cipher.c","i >= written_len - len; i--)","i > written_len - len; i--)")]
DEMO=PRE+r'''
int main(void){
	unsigned char key[16]={9,8,7}, in[16], a[64], b[64]; int i,n; struct RaAesCtx *c;
	for(i=0;i<16;i++) in[i]=(unsigned char)(i<11?i:5); in[11]=4;
	RaAesCreate(key,RA_AES_128,RA_BLOCK_MODE_ECB,&c);
	RaAesEncrypt(c,in,16,a);
	n=RaAesDecryptFinal(c,a,16,b,RA_BLOCK_PADDING_PKCS7);
	CHECK(n==16 && memcmp(in,b,16)==0);
	return 0; }
'''
