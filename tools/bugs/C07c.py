from bugpre import *
ID="C07c"; PROP="C07"
NEEDS="an odd composite of 4096 bits or more"
BREAKS="the number of rounds falls to zero with the size: every such odd number is called prime"
EDITS=[("src/com/prime.c","	bit = BnGetBitLength(bn);\n	if (bit >= 1024) {\n		checkCount = 3;\n	}","	bit = BnGetBitLength(bn);\n	if (bit >= 1024) {\n		checkCount = 4 - bit / 1024;\n	}")]
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *c=num("%s",70); 
	CHECK(RaIsPrimeNumber(c)!=0);
	return 0; }
''' % H((1<<4100)+1+2*3*5*7*11)
