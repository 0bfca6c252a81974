from bugpre import *
ID="C03a"; PROP="C03"
NEEDS="encoding a negative number that is exactly minus a power of two with the exponent 7 modulo 8 (-128, -32768 ...)"
BREAKS="such numbers are encoded with a superfluous leading 0xff byte: not minimal, and the length query agrees, so keys re-export differently"
EDITS=[("src/com/bignumber.c","""		word = neg->data[neg->length - 1];
		bit = _BnGetMSBPos(word);
		if ((bit % 8) == 7) {			// if most significant bit is set.
""","""		word = neg->data[neg->length - 1];
		bit = _BnGetMSBPos(word);
		if ((bit % 8) == 7 || (BnGetBitLength(bn) % 8) == 0) {			// if most significant bit is set.
""")]
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=BnNewW(4); unsigned char o[32]; int k;
	for(k=-300;k<300;k++){
		BnSetInt(a,k);
		CHECK(BnToByteArray(a,o,32)==(k>=-128&&k<128?1:2));
		CHECK((signed char)o[0]==(k>=-128&&k<128?k:k>>8));
	}
	return 0; }
'''
