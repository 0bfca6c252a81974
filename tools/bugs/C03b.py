from bugpre import *
ID='C03b'; PROP='C03'

NEEDS="the fixed-width encoding of a zero that came out of a computation with a negative number (or was negated)"
BREAKS="BnToFixedByteArray refuses such a zero"
EDITS=[("src/com/bignumber.c","	if ( bn->sign && !BN_ISZERO( bn ) ) {\n		return 0;","	if ( bn->sign ) {\n		return 0;")]
DEMO=PRE+r"""
int main(void){ struct RaBigNumber *a=BnNewW(4),*b=BnNewW(4); unsigned char t[8]; int i; for(i=0;i<8;i++) t[i]=9; BnSetInt(a,-6); BnSetInt(b,3); CHECK(BnMod(a,a,b)==0); CHECK(BnToFixedByteArray(a,t,8)==8); for(i=0;i<8;i++) CHECK(t[i]==0); return 0; }
"""
