from bugpre import *
ID='C26b'; PROP='C26'

NEEDS="two generators created without a seed within one millisecond"
BREAKS="the entropy is read once per process and kept: the second generator repeats the first"
EDITS=[("src/com/random.c","	int fd;\n	int size;\n	result = RA_ERR_INVALID_DATA;\n","	int fd;\n	int size;\n	static uint8_t kept[RA_RAND_SEED_LEN - 4];\n	static int have;\n	if (have) {\n		memcpy(seedBytes, kept, RA_RAND_SEED_LEN - 4);\n		goto _TIME;\n	}\n	result = RA_ERR_INVALID_DATA;\n"),
("src/com/random.c","		memset(seedBytes, 0, RA_RAND_SEED_LEN - 4);\n	}\n#endif\n	seed = RaRandomGetRandomSeed();","		memset(seedBytes, 0, RA_RAND_SEED_LEN - 4);\n	}\n	else {\n		memcpy(kept, seedBytes, RA_RAND_SEED_LEN - 4);\n		have = 1;\n	}\n_TIME:\n#endif\n	seed = RaRandomGetRandomSeed();")]
DEMO=PRE+r"""
int main(void){ int i; for(i=0;i<500;i++){ struct RaRandom *g,*h; unsigned char a[20],b[20]; RaRandomCreate(RA_RAND_SHA160,NULL,0,&g); RaRandomCreate(RA_RAND_SHA160,NULL,0,&h); RaRandomBytes(g,20,a); RaRandomBytes(h,20,b); CHECK(memcmp(a,b,20)!=0); RaRandomDestroy(g); RaRandomDestroy(h);} return 0; }
"""
