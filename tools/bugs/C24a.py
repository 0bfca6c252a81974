from bugpre import *
ID='C24a'; PROP='C24'
NEEDS='two threads that decrypt in CBC, CFB or OFB mode at the same time'
BREAKS='a block buffer is shared between all contexts'
EDITS=[('src/cipher/block_cipher.c', 'static void RaBlockCipherDecryptBlock(struct RaBlockCipher *ctx, const uint8_t *input, uint8_t *output)\n{\n\tuint32_t tmpInput[RA_BLOCK_LEN_MAX / 4];\n\tuint32_t tmpOutput[RA_BLOCK_LEN_MAX / 4];', 'static void RaBlockCipherDecryptBlock(struct RaBlockCipher *ctx, const uint8_t *input, uint8_t *output)\n{\n\tuint32_t tmpInput[RA_BLOCK_LEN_MAX / 4];\n\tstatic uint32_t tmpOutput[RA_BLOCK_LEN_MAX / 4];')]
DEMO=PRE+r'''
#include <pthread.h>
static int bad;
static void *th(void *a){ unsigned char k[16],in[4096],o[4096],ref[4096]; int i,n=*(int*)a; struct RaSeedCtx *c; for(i=0;i<16;i++) k[i]=(unsigned char)(i+n*31); for(i=0;i<4096;i++) in[i]=(unsigned char)(i*n+3);
	for(i=0;i<1500;i++){ RaSeedCreate(k,RA_BLOCK_MODE_CBC,&c); RaSeedDecrypt(c,in,4096,o); RaSeedDestroy(c); if(i==0) memcpy(ref,o,4096); else if(memcmp(ref,o,4096)) bad=1; } return 0; }
int main(void){ pthread_t t[8]; int v[8],i,r; for(r=0;r<4&&!bad;r++){ for(i=0;i<8;i++){v[i]=i+1; pthread_create(&t[i],0,th,&v[i]);} for(i=0;i<8;i++) pthread_join(t[i],0);} CHECK(!bad); return 0; }
'''
