from bugpre import *
ID="C07a"; PROP="C07"
NEEDS="testing a prime p with p-1 divisible by 2^64"
BREAKS="such primes are rejected as composite (the power of two in p-1 is counted from the wrong word)"
EDITS=[("src/com/prime.c","	data = n1->data[i];\n","	data = n1->data[0];\n")]
k=1
while not isp(k*(1<<64)+1): k+=1
C=3*(1<<64)+1
_k=1
while isp(_k*(1<<64)+1): _k+=1
K=(1<<100)|1
while not isp(K*(1<<64)+1): K+=2
P=K*(1<<64)+1
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *p=num("%s",4);
	CHECK(RaIsPrimeNumber(p)==0); p=num("%s",4); CHECK(RaIsPrimeNumber(p)!=0);
	return 0; }
''' % (H(P),H(_k*(1<<64)+1))
