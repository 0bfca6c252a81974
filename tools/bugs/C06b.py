from bugpre import *
ID='C06b'; PROP='C06'

NEEDS="a reduction step whose carry runs over a word of ones: a modulus just below a power of the word base and a base just below the modulus"
BREAKS="the carry stops after one word: the power is wrong"
EDITS=[("src/com/montexpmod.c","""		while (c)
		{""","""		if (c)
		{""")]
N=(1<<256)-189
DEMO=PRE+r"""
int main(void){ struct RaBigNumber *n=num("%s",8),*a=num("%s",8),*e=BnNewW(4),*r=BnNewW(8); struct RaMontCtx *c; CHECK(RaMontCreate(n,&c)==0); BnSetUInt(e,3); CHECK(RaMontExpMod(c,r,a,e)==0); CHECK(same(r,"%s")); return 0; }
""" % (H(N),H(N-5),H(pow(N-5,3,N)))
