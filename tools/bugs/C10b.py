from bugpre import *
ID='C10b'; PROP='C10'

NEEDS="verifying a key whose public exponent equals its modulus (and whose private exponent fits to it)"
BREAKS="such an exponent is accepted"
EDITS=[("src/pk/rsa.c","	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);","	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) <= 0);")]
p=nextp(0x8eadbeefcafebabe); q=nextp(0xfbcdef0123456789)
k=key(p,q,p*q)
DEMO=PRE+r"""
int main(void){ unsigned char d[2000]; int n=bytes(d,"%s"); struct RaRsaKeyPair *k; CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0); CHECK(RaRsaVerifyKey(k)!=0);  return 0; }
""" % (pkcs8(k).hex())
