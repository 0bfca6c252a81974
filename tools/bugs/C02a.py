from bugpre import *
ID="C02a"; PROP="C02"
NEEDS="a division whose guessed quotient digit is too large by two (about one digit in 2^64 by chance, easily constructed)"
BREAKS="BnDiv corrects the guessed quotient digit only once, so quotient and remainder are wrong"
EDITS=[("src/com/bignumber.c","""			while (_BnCmp(rr, bq) < 0) {
				_BnSubR(bq, bb);
				qu--;
			}
			if (qu > 0) {
				_BnSubR(rr, bq);		// rr -= bb * qu
				if (length == 0)
				{
""","""			if (_BnCmp(rr, bq) < 0) {
				_BnSubR(bq, bb);
				qu--;
			}
			if (qu > 0) {
				_BnSubR(rr, bq);		// rr -= bb * qu
				if (length == 0)
				{
""")]
M=(1<<64)-1
b=(1<<127)|M           # normalized, low word all ones
# digit guess from top word alone overshoots by 2
rn=random.Random(1)
while True:
    r=rn.randrange(b>>3, b); a=(r<<64)|rn.getrandbits(3)
    top=a>>64
    g=min((a>>64)//(b>>64), M); q=a//b
    if g-q>=2: break
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=num("%s",8), *b=num("%s",8), *q=BnNewW(8), *r=BnNewW(8);
	CHECK(BnDiv(q,r,a,b)==0);
	CHECK(same(q,"%s"));
	CHECK(same(r,"%s"));
	return 0; }
''' % (H(a),H(b),H(a//b),H(a%b))
