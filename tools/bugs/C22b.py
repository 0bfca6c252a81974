from bugpre import *
ID='C22b'; PROP='C22'

FLAGS="-DRACRYPT_USE_ASM -fno-builtin"
NEEDS="parsing key data of more than ten objects"
BREAKS="the further node chunks are not linked and never released"
EDITS=[("src/pk/asn1.c","		ctx->tail->next = chunk;\n		ctx->tail = chunk;","		ctx->tail = chunk;")]
k=key(nextp(0xdeadbeefcafebabe1234567),nextp(0xabcdef0123456789abcdef01))
DEMO=PRE+r"""
void *__libc_malloc(size_t); void __libc_free(void*); static volatile int live;
void *malloc(size_t n){ void *p=__libc_malloc(n); live++; return p; }
void free(void *p){ if(p) live--; __libc_free(p); }
int main(void){ unsigned char d[2000]; int n=bytes(d,"%s"),l; struct RaRsaKeyPair *k; l=live; CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0); RaRsaDestroyKeyPair(k); CHECK(live==l); return 0; }
""" % pkcs8(k).hex()
