from bugpre import *
ID="C10d"; PROP="C10"
NEEDS="verifying a private key with an exponent modulo a prime that is wrong above its lowest 64 bits"
BREAKS="only the lowest 64 bits of the second such exponent are compared: the altered key is accepted"
EDITS=[("src/pk/rsa.c","	CHECK_KEY_DATA(BnCmp(temp, key->exp2) == 0);","	CHECK_KEY_DATA(_BnGetUInt64(temp) == _BnGetUInt64(key->exp2));")]
def nxt(n):
    n|=1
    while not isp(n): n+=2
    return n
p=nxt(3<<126); q=nxt((3<<126)+(1<<100)+12345)
while (p-1)%65537==0 or (q-1)%65537==0: q=nxt(q+2)
n=p*q; phi=(p-1)*(q-1); d=pow(65537,-1,phi)
k=[n,65537,d,p,q,d%(p-1),d%(q-1),pow(q,-1,p)]
b=list(k); b[6]^=1<<100
DEMO=PRE+r'''
int main(void){
	struct RaRsaKeyPair *k; unsigned char t[4096]; int n;
	n=bytes(t,"%s"); CHECK(RaRsaCreateKeyPriv(t,n,&k)==0); CHECK(RaRsaVerifyKey(k)==0);
	n=bytes(t,"%s"); CHECK(RaRsaCreateKeyPriv(t,n,&k)==0); CHECK(RaRsaVerifyKey(k)!=0);
	return 0; }
''' % (pkcs1(k).hex(), pkcs1(b).hex())
