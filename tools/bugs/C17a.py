from bugpre import *
ID='C17a'; PROP='C17'
NEEDS='a key of more than 255 bytes'
BREAKS='the key index wraps at 256: the rest of a long key is ignored or taken modulo another length'
EDITS=[('src/cipher/rc4.c', 'key[x % keyLen]', 'key[x % (keyLen > 255 ? 255 : keyLen)]')]
DEMO=PRE+r'''
int main(void){
	unsigned char k[256], in[32]={0}, a[32], b[32]; struct RaRc4Ctx *c; int i;
	for(i=0;i<256;i++) k[i]=(unsigned char)(i*5+1);
	CHECK(RaRc4Create(k,256,&c)==0); RaRc4Encrypt(c,in,32,a); RaRc4Destroy(c);
	k[255]^=0x40;
	CHECK(RaRc4Create(k,256,&c)==0); RaRc4Encrypt(c,in,32,b); RaRc4Destroy(c);
	CHECK(memcmp(a,b,32)!=0); return 0; }
'''
