from bugpre import *
ID="C07b"; PROP="C07"
NEEDS="a Carmichael number without small factors"
BREAKS="reaching 1 while squaring ends the round as passed: the test is no better than Fermat's"
EDITS=[("src/com/prime.c","			if (BnCmp(val, n1) == 0)\n				break;		// probable prime\n","			if (BnCmp(val, n1) == 0 || BnCmpInt(val, 1) == 0)\n				break;		// probable prime\n")]
def chern(k):
    while True:
        a,b,c=6*k+1,12*k+1,18*k+1
        if isp(a) and isp(b) and isp(c): return a*b*c
        k+=2
C=chern((1<<60)+1)
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *c=num("%s",8); int i;
	for(i=0;i<10;i++) CHECK(RaIsPrimeNumber(c)!=0);
	return 0; }
''' % H(C)
