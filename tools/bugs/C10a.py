from bugpre import *
ID="C10a"; PROP="C10"
NEEDS="verifying a private key whose second prime is larger than its first and whose coefficient was altered"
BREAKS="the altered coefficient is accepted"
EDITS=[("src/pk/rsa.c","	CHECK_KEY_DATA(BnCmp(temp, key->coeff) == 0);\n","	if (BnCmp(key->prime1, key->prime2) > 0)\n		CHECK_KEY_DATA(BnCmp(temp, key->coeff) == 0);\n")]
p=nextp(0x8eadbeefcafebabe); q=nextp(0xfbcdef0123456789)
k=key(p,q)
DEMO=PRE+r'''
int main(void){
	unsigned char d[4000]; int n; struct RaRsaKeyPair *k;
	n=bytes(d,"%s"); CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0); CHECK(RaRsaVerifyKey(k)==0);
	n=bytes(d,"%s"); CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0); CHECK(RaRsaVerifyKey(k)!=0);
	return 0; }
''' % (pkcs8(k).hex(),pkcs8(k[:7]+[k[7]^4]).hex())
