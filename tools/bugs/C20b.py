from bugpre import *
ID='C20b'; PROP='C20'

NEEDS="a generator created with an empty seed"
BREAKS="it is seeded from the system instead: the stream is not reproducible"
EDITS=[("src/com/random.c","	if (seed == NULL) {","	if (seed == NULL || seed_len <= 0) {")]
DEMO=PRE+r"""
int main(void){ unsigned char s[1]={0},a[40],b[40]; struct RaRandom *g,*h; CHECK(RaRandomCreate(RA_RAND_SHA256,s,0,&g)==0); CHECK(RaRandomCreate(RA_RAND_SHA256,s,0,&h)==0); RaRandomBytes(g,40,a); RaRandomBytes(h,40,b); CHECK(memcmp(a,b,40)==0); return 0; }
"""
