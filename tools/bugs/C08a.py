from bugpre import *
ID="C08a"; PROP="C08"
NEEDS="a progress callback that asks to stop with a negative value"
BREAKS="the request is ignored: generation goes on and the callback is called again"
EDITS=[("src/com/prime.c","			if (progress(count, userData) != 0)","			if (progress(count, userData) > 0)")]
DEMO=PRE+r'''
static int calls;
static int cb(int n, void *u){ calls++; return -1; }
int main(void){
	struct RaBigNumber *p=BnNew(64);
	int i; for(i=0;i<40;i++) { calls=0; RaGenPrimeNumberEx(p,64,cb,NULL,NULL); CHECK(calls==1); }

	return 0; }
'''
