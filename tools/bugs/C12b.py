from bugpre import *
ID='C12b'; PROP='C12'

NEEDS="importing a key with a component of 8k+1 significant octets whose top bit is set (a sign octet in front)"
BREAKS="the number is created one word too small: the well-formed key is refused"
EDITS=[("src/pk/rsa.c","		bit -= 8;\n","		bit -= 16;\n")]
k=key(nextp(0xc<<520),nextp((0xd<<520)+12345))
# modulus of 8*8k.. octets is what matters
import math
N=(0xc5<<(8*128))|1
DEMO=PRE+r"""
int main(void){ unsigned char d[2000]; int n=bytes(d,"%s"); struct RaRsaKeyPair *k; CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0); CHECK(RaRsaKeyBitLength(k)==%d); return 0; }
""" % (spki(N,65537).hex(),N.bit_length())
