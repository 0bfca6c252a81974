from bugpre import *
ID="C06a"; PROP="C06"
NEEDS="a power that is congruent to zero modulo a composite modulus"
BREAKS="the result is the modulus itself instead of zero"
EDITS=[("src/com/montexpmod.c","	if (BnCmp(ctx->tmp, ctx->N) >= 0) {","	if (BnCmp(ctx->tmp, ctx->N) > 0) {")]
N=3*3*1000003*(2**61-1)
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *n=num("%s",4), *a=num("%s",4), *e=num("09",2), *r=BnNewW(8); struct RaMontCtx *c;
	CHECK(RaMontCreate(n,&c)==0);
	CHECK(RaMontExpMod(c,r,a,e)==0);
	CHECK(BnCmp(r,n)<0);
	CHECK(BnCmpInt(r,0)==0);
	return 0; }
''' % (H(N),H(3*1000003*(2**61-1)))
