from bugpre import *
ID="C05a"; PROP="C05"
NEEDS="the extended gcd of a first operand more than twice as long as the second"
BREAKS="GetGCDEx reports a size error instead of the coefficients (working storage sized from the wrong operand)"
EDITS=[("src/com/gcd.c","""	i = m->length > n->length ? m->length : n->length;
""","""	i = n->length > m->length / 2 ? m->length : n->length;
	if (n->length > i)
		i = n->length;
""")]
FLAGS="-DNDEBUG -DRACRYPT_USE_ASM"
rn=random.Random(3); m=nextp(rn.getrandbits(640)|1<<639); n=nextp(rn.getrandbits(128)|1<<127)
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *m=num("%s",12), *n=num("%s",4), *a=BnNewW(30), *b=BnNewW(30), *r=BnNewW(30);
	CHECK(GetGCDEx(r,a,b,m,n,1)==0);
	CHECK(same(a,"%s"));
	return 0; }
''' % (H(m),H(n),H(pow(m,-1,n)))
