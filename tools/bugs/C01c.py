from bugpre import *
ID="C01c"; PROP="C01"
NEEDS="a subtraction of numbers of at least three words that agree in two or more leading words"
BREAKS="only one leading zero word of the difference is dropped: the result compares as larger than it is"
EDITS=[("src/com/bignumber.c","	while (r->length > 1 && (*(--rd)) == 0) {\n		r->length--;\n	}\n	return RA_ERR_SUCCESS;\n}\n\n// a = a + b","	if (r->length > 1 && (*(--rd)) == 0) {\n		r->length--;\n	}\n	return RA_ERR_SUCCESS;\n}\n\n// a = a + b")]
A=(7<<256)|(9<<192)|5; B=(7<<256)|(9<<192)|2
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=num("%s",8),*b=num("%s",8),*r=BnNewW(8);
	CHECK(BnSub(r,a,b)==0); CHECK(BnCmpUInt(r,3)==0); CHECK(same(r,"03"));
	return 0; }
''' % (H(A),H(B))
