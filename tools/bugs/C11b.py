from bugpre import *
ID='C11b'; PROP='C11'

NEEDS="exporting a key with a component or structure whose encoded length is exactly 65536 octets"
BREAKS="the length is written as 0x82 0x00 0x00: the export is not valid DER"
EDITS=[("src/pk/rsa.c","	else if (len < 0x10000) {","	else if (len <= 0x10000) {")]
DEMO=PRE+r"""
int main(void){ static unsigned char d[70000],o[70000]; int n=0,i,l=0; struct RaRsaKeyPair *k; 
	/* SPKI with a modulus of exactly 65536 octets */
	int M=65536, seq=1+4+M+3, bits=seq+5+1, all=15+1+4+bits;
	d[n++]=0x30; d[n++]=0x83; d[n++]=all>>16; d[n++]=all>>8; d[n++]=all;
	n+=bytes(d+n,"300d06092a864886f70d0101010500"); d[n++]=3; d[n++]=0x83; d[n++]=bits>>16; d[n++]=bits>>8; d[n++]=bits; d[n++]=0;
	d[n++]=0x30; d[n++]=0x83; d[n++]=seq>>16; d[n++]=seq>>8; d[n++]=seq; d[n++]=2; d[n++]=0x83; d[n++]=1; d[n++]=0; d[n++]=0;
	for(i=0;i<M;i++) d[n++]=(i==0)?0x55:(i*7+1)|1; d[n++]=2; d[n++]=1; d[n++]=3;
	CHECK(RaRsaCreateKeyFromByteArray(d,n,&k)==0); CHECK(RaRsaPubKeyToByteArray(k,o,sizeof o,&l)==0); CHECK(l==n); CHECK(memcmp(o,d,n)==0); return 0; }
"""
