from bugpre import *
ID='C02b'; PROP='C02'

NEEDS="a division in which the partial remainder and the product agree in two or more of their highest words"
BREAKS="only one of the leading zero words is dropped: the following digits are wrong"
EDITS=[("src/com/bignumber.c","""		while ( a->length > 1 && (*(--ad)) == 0)
		{
			a->length--;
		}
""","""		if ( a->length > 1 && (*(--ad)) == 0)
		{
			a->length--;
		}
""")]
b=(1<<255)+(1<<200)+12345
q=(1<<190)+98765
A=b*q+7
DEMO=PRE+r"""
int main(void){ struct RaBigNumber *a=num("%s",20),*b=num("%s",20),*q=BnNewW(20),*r=BnNewW(20); CHECK(BnDiv(q,r,a,b)==0); CHECK(same(q,"%s")); CHECK(same(r,"%s"));
	a=num("%s",20); CHECK(BnMod(r,a,b)==0); CHECK(same(r,"05")); return 0; }
""" % (H(A),H(b),H(q),H(7),H((b<<192)+5))
