from bugpre import *
ID="C01a"; PROP="C01"
NEEDS="squaring a number where, with a carry pending, the low word of a product is all ones"
BREAKS="BnSqr drops a carry: the square of some multi-word numbers is wrong"
EDITS=[("src/com/bignumber.c","""		bd = &a->data[i];
		rd = &r->data[i];

		for (j = 0; j < a->length; j++) {
			cw = val.high;
			_BnMul128(&val, *ad, *bd);

			val.low += cw;
			if (c != 0) {
				val.low++;
				if (val.low <= cw)
""","""		bd = &a->data[i];
		rd = &r->data[i];

		for (j = 0; j < a->length; j++) {
			cw = val.high;
			_BnMul128(&val, *ad, *bd);

			val.low += cw;
			if (c != 0) {
				val.low++;
				if (val.low < cw)
""")]
M=(1<<64)-1
def lossy(a):
    ds=[];x=a
    while x: ds.append(x&M);x>>=64
    r=[0]*(2*len(ds)+2)
    for i,b in enumerate(ds):
        hi=0;c=0
        for j,w in enumerate(ds):
            cw=hi;p=w*b;lo=p&M;hi=p>>64
            lo=(lo+cw)&M
            if c:
                lo=(lo+1)&M
                if lo<cw: hi+=1
            elif lo<cw: hi+=1
            r[i+j]=(r[i+j]+lo)&M; c=int(r[i+j]<lo)
        hi+=c
        r[i+len(ds)]=(r[i+len(ds)]+hi)&M
    return sum(v<<(64*k) for k,v in enumerate(r))
rn=random.Random(4); found=[]
while len(found)<1:
    # lowest word b inverse pair: product of word j and word i is all ones
    n=rn.choice([3,4,5]); ds=[rn.getrandbits(64)|1 for _ in range(n)]
    i,j=rn.randrange(n),rn.randrange(1,n)
    if i==j: continue
    ds[j]=(-pow(ds[i],-1,1<<64))&M
    a=sum(v<<(64*k) for k,v in enumerate(ds))
    if lossy(a)!=a*a: found.append(a)
a=found[0]
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *a=num("%s",8), *r=BnNewW(20);
	CHECK(BnSqr(r,a)==0);
	CHECK(same(r,"%s"));
	return 0; }
''' % (H(a),H(a*a))
