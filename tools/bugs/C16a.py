from bugpre import *
ID='C16a'; PROP='C16'
NEEDS='a Blowfish key of 1 to 3 bytes'
BREAKS='the key bytes are read beyond a short key: the P-array is built from other bytes'
EDITS=[('src/cipher/blowfish.c', '\t\tp = (p + 4) % keyLen;', '\t\tp += 4;\n\t\tif (p >= keyLen)\n\t\t\tp -= keyLen;')]
DEMO=PRE+r'''
int main(void){
	/* the same 3-byte key followed by different bytes must give the same cipher, and a repeated key is the same key */
	unsigned char k[64], in[8]={1,2,3,4,5,6,7,8}, o1[8], o2[8]; struct RaBlowfishCtx *c; int i;
	for(i=0;i<64;i++) k[i]="\x11\x22\x33"[i%3];
	CHECK(RaBlowfishCreate(k,48,RA_BLOCK_MODE_ECB,&c)==0); RaBlowfishEncrypt(c,in,8,o1); RaBlowfishDestroy(c);
	for(i=3;i<64;i++) k[i]=(unsigned char)(i*7);
	CHECK(RaBlowfishCreate(k,3,RA_BLOCK_MODE_ECB,&c)==0); RaBlowfishEncrypt(c,in,8,o2); RaBlowfishDestroy(c);
	CHECK(memcmp(o1,o2,8)==0); return 0; }
'''
