from bugpre import *
ID="C04b"; PROP="C04"
NEEDS="doubling into a result object whose storage is full"
BREAKS="BnDouble writes one word beyond the storage instead of reporting the size error"
EDITS=[("src/com/bignumber.c","		if (r->max_length <= r->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n\n		*rd = 1;\n		r->length++;\n	}\n	r->sign = a->sign;","		if (r->max_length < r->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n\n		*rd = 1;\n		r->length++;\n	}\n	r->sign = a->sign;")]
FLAGS="-DNDEBUG"
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=num("ffffffffffffffffffffffffffffffff",2),*r=BnNewW(2); int rc;
	rc=BnDouble(r,a); CHECK(rc==RA_ERR_NUMBER_SIZE);
	return 0; }
'''
