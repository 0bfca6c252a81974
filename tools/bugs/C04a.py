from bugpre import *
ID="C04a"; PROP="C04"
NEEDS="multiplying a number that fills its storage by a word so that the product needs one more word"
BREAKS="BnMulUInt writes one word beyond the storage instead of reporting the size error"
EDITS=[("src/com/bignumber.c","""		_BnMul128(&val, bn->data[i], multiplier);
		val.low += cw;
		if (val.low < cw)
			val.high++;
		bn->data[i] = val.low;
	}
	if (val.high > 0) {
		if (bn->max_length <= bn->length) {
""","""		_BnMul128(&val, bn->data[i], multiplier);
		val.low += cw;
		if (val.low < cw)
			val.high++;
		bn->data[i] = val.low;
	}
	if (val.high > 0) {
		if (bn->max_length < bn->length) {
""")]
FLAGS="-DNDEBUG -DRACRYPT_USE_ASM"
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=BnNewW(3); bn_uint_t *end;
	BnSetUInt(a,1); BnShiftL(a,191);
	CHECK(a->length==3 && a->max_length==3);
	CHECK(BnMulUInt(a,2)==RA_ERR_NUMBER_SIZE);
	return 0; }
'''
