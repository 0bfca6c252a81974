from bugpre import *
ID='C21a'; PROP='C21'
NEEDS='a random number whose top word comes out with the top bit only, i.e. bits-1 random bits below a word boundary that are all zero: seldom; or BnGetRandomRSA for a size one above a word boundary'
BREAKS='the normalised length is kept after setting the top bit: the number loses its top word'
EDITS=[('src/com/bignumber.c', '\tbn->data[word - 1] |= (bn_uint_t)1 << bit;\n\tbn->length = word;', '\tbn->data[word - 1] |= (bn_uint_t)1 << bit;\n\tif (bn->length + 1 < word)\n\t\tbn->length = word;')]
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *b=BnNew(256); struct RaRandom *g; int i; unsigned char s[2];
	for(i=0;i<60;i++){ s[0]=i; s[1]=1; CHECK(RaRandomCreate(RA_RAND_SHA160,s,2,&g)==0);
		CHECK(BnGetRandomRSA(b,129,g)==0); CHECK(BnGetBitLength(b)==129); RaRandomDestroy(g);} return 0; }
'''
