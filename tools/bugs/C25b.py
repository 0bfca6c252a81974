from bugpre import *
ID='C25b'; PROP='C25'

NEEDS="32-bit words and a one-word number whose storage held a longer one before"
BREAKS="the low 64 bits are reported with the stale second word"
FLAGS="-DRACRYPT_USE_ASM -DBN_WORD_BYTE=4"
EDITS=[("src/com/bignumber.c","	if ( bn->length == 1 )\n		return bn->data[0];\n	else\n		return","		return")]
DEMO=PRE+r"""
int main(void){ struct RaBigNumber *a=num("0102030405060708",4); BnShiftR(a,40); CHECK(_BnGetUInt64(a)==0x010203); return 0; }
"""
