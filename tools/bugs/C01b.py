from bugpre import *
ID="C01b"; PROP="C01"
NEEDS="a subtraction in which two equal words meet a pending borrow, with operands of different lengths"
BREAKS="the borrow is lost: the difference is too large by one unit of the next word"
EDITS=[("src/com/bignumber.c","""			c = (*ad) <= (*bd);
			val = (uint64_t)(*ad) - (*bd) - 1;
		}
		*rd = val;
""","""			c = (*ad) < (*bd);
			val = (uint64_t)(*ad) - (*bd) - 1;
		}
		*rd = val;
""")]
x=0x1234567890abcdef
a=(7<<128)|(x<<64)|5; b=(3<<128)|(x<<64)|9
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=num("%s",8), *b=num("%s",8), *r=BnNewW(8);
	CHECK(BnSub(r,a,b)==0);
	CHECK(same(r,"%s"));
	return 0; }
''' % (H(a),H(b),H(a-b))
