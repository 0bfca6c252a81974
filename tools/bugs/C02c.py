from bugpre import *
ID="C02c"; PROP="C02"
NEEDS="a remainder-only division of 64-bit words in which the highest word of the partial remainder equals that of the divisor"
BREAKS="BnMod skips the quotient digit one there: the result is not smaller than the divisor"
EDITS=[("src/com/bignumber.c","""			_BnSubR(rr, bq);		// rr -= bb * qu
		}

		ad--;
	}
#else
	ru = 0;

	while (ad >= aa->data) {
		BnShiftL(rr, 32);
		rr->data[0] = (*ad);

		// check the length
		if (rr->length > b->length)
			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
		else if (rr->length == b->length)
			ru = *rd;
		else
			ru = 0;

		if (ru >= bu) {
			if ((ru >> 32) == bu)		// overflow
				qu = 0xFFFFFFFF;
			else
				qu = (uint32_t)(ru / bu);		// guess the quotient

			BnSet(bq, bb);
			BnMulUInt(bq, qu);		// bq = bb * qu
			while (_BnCmp(rr, bq) < 0) {
				_BnSubR(bq, bb);
				qu--;
			}
			_BnSubR(rr, bq);		// rr -= bb * qu
		}

		ad--;
	}
#endif

	BnShiftR(rr, (uint32_t)bit);
	rr->sign = a->sign;""","")]
import re
src=open("/repo/src/com/bignumber.c").read()
i=src.index("int BnMod("); j=src.index("if (ru.high != 0 || ru.low >= bu) {", i)
ctx=src[j-260:j]+"if (ru.high != 0 || ru.low >= bu) {"
# unique context: from the start of BnMod's loop
k0=src.rindex("	ad = &aa->data[aa->length - bb->length];\n	rd = &rr->data[bb->length - 1];", i, j)
old=src[k0:j]+"if (ru.high != 0 || ru.low >= bu) {"
EDITS=[("src/com/bignumber.c",old,old.replace("ru.low >= bu","ru.low > bu"))]
N=((1<<127)+(5<<64)+77); A=N+1
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=num("%s",8),*b=num("%s",8),*r=num("00",8);
	CHECK(BnMod(r,a,b)==0); CHECK(same(r,"01"));
	return 0; }
''' % (H(A),H(N))
