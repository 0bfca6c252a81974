from bugpre import *
ID="C07d"; PROP="C07"
NEEDS="a composite of 1024 bits or more with many liars, tested many times"
BREAKS="one round fewer: composites are accepted four times as often as the bound of the test permits"
EDITS=[("src/com/prime.c","	bit = BnGetBitLength(bn);\n	if (bit >= 1024) {\n		checkCount = 3;\n	}","	bit = BnGetBitLength(bn);\n	if (bit >= 1024) {\n		checkCount = 2 + (bit < 1024);\n	}")]
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *c=num("%s",20); int i,acc=0;
	for(i=0;i<1500;i++) acc += RaIsPrimeNumber(c)==0;
	CHECK(acc<60);
	return 0; }
''' % H(1016584088908409175801015981437693067550709564303586431288465528160274421364302840445766595020037050206796941391426574484860551965018299589785096210030145411211835427564599210942559808172705142690365481779622598115606935308029436889027644266045223252707427124824337754039392505601153362188351399920725950780291)
