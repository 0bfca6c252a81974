from bugpre import *
ID="C09a"; PROP="C09"
NEEDS="verifying a signature against a different message that agrees in the lowest 64 bits"
BREAKS="RaRsaVerify accepts it"
EDITS=[("src/pk/rsa.c","	result = BnCmp(message, decrypted);\n","	result = _BnGetUInt64(message) != _BnGetUInt64(decrypted);\n")]
k=key(nextp(0xdeadbeefcafebabe1234567),nextp(0xabcdef0123456789abcdef01))
m=0x1122334455667788990011223344556677
DEMO=PRE+r'''
int main(void){
	unsigned char d[4000]; int n=bytes(d,"%s"); struct RaRsaKeyPair *k;
	struct RaBigNumber *s=num("%s",8), *m=num("%s",8), *x=num("%s",8);
	CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0);
	CHECK(RaRsaVerify(k,s,m)==0);
	CHECK(RaRsaVerify(k,s,x)==RA_ERR_INVALID_DATA);
	return 0; }
''' % (pkcs8(k).hex(),H(pow(m,k[2],k[0])),H(m),H(m^(1<<100)))
