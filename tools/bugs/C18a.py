from bugpre import *
ID='C18a'; PROP='C18'
NEEDS='an update piece that completes a partly filled block exactly, with HAS-160'
BREAKS='the completed block is copied but never processed'
EDITS=[('src/digest/has160.c', '\tif (bufferRemain < 64 && bufferRemain <= len) {', '\tif (bufferRemain < 64 && bufferRemain < len) {')]
DEMO=PRE+r'''
int main(void){
	unsigned char d[200],a[20],b[20]; int i; struct RaHas160Ctx *c; for(i=0;i<200;i++) d[i]=(unsigned char)i;
	RaHas160(d,200,a); CHECK(RaHas160Create(&c)==0);
	RaHas160Update(c,d,20); RaHas160Update(c,d+20,44); RaHas160Update(c,d+64,136); RaHas160Final(c,b); RaHas160Destroy(c);
	CHECK(memcmp(a,b,20)==0); return 0; }
'''
