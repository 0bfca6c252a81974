from bugpre import *
ID="C12a"; PROP="C12"
NEEDS="importing data that ends inside the length octets of an object"
BREAKS="the octets after the end of the data are read; with fitting bytes there, a truncated key is taken for a complete one"
EDITS=[("src/pk/asn1.c","		if (ctx->dataIndex + length > ctx->dataEnd) {","		if (ctx->dataIndex + 1 > ctx->dataEnd) {")]
DEMO=PRE+r'''
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
static void bad(int s){ write(1,"read beyond the data\n",21); _exit(1); }
int main(void){
	long ps=sysconf(_SC_PAGESIZE); struct RaRsaKeyPair *k; int i;
	unsigned char *p=mmap(NULL,2*ps,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	static const unsigned char t[]={0x30,0x82,0x01};
	mprotect(p+ps,ps,PROT_NONE);
	signal(SIGSEGV,bad); signal(SIGBUS,bad);
	memcpy(p+ps-sizeof t,t,sizeof t);
	CHECK(RaRsaCreateKeyFromByteArray(p+ps-sizeof t,sizeof t,&k)!=0);
	return 0; }
'''
