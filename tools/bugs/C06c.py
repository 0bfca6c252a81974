from bugpre import *
ID="C06c"; PROP="C06"
NEEDS="a reduction in which a product word plus the carried word is all ones while the addition carries (64-bit words, probability about 2^-64 per step)"
BREAKS="the carry out of the incremented low word is lost: the power is wrong"
EDITS=[("src/com/montexpmod.c","			if (c != 0) {\n				val.low++;\n				if (val.low == 0)\n					val.high++;\n			}\n\n			*td += val.low;\n			c = ((*td) < val.low);\n","			if (c != 0) {\n				val.low++;\n			}\n\n			*td += val.low;\n			c = ((*td) < val.low) | (c & (val.low == 0));\n")]
EDITS=[("src/com/montexpmod.c","			if (c != 0) {\n				val.low++;\n				if (val.low == 0)\n					val.high++;\n			}\n\n			*td += val.low;\n			c = ((*td) < val.low);\n\n			td++;\n			nd++;","			val.low += c;\n\n			*td += val.low;\n			c = ((*td) < val.low);\n\n			td++;\n			nd++;")]
B=1<<64
import random
r=random.Random(5)
while 1:
    N=[r.getrandbits(64)|1,0,r.getrandbits(64)|1<<63]; T=[r.getrandbits(64)|1,r.getrandbits(64),r.getrandbits(62)]
    m=T[0]*-pow(N[0],-1,B)%B; cw=(N[0]*m)>>64
    N[1]=(B-1-cw)*pow(m,-1,B)%B
    break
n=sum(x<<(64*i) for i,x in enumerate(N)); t=sum(x<<(64*i) for i,x in enumerate(T)); a=t*pow(1<<192,-1,n)%n
DEMO=PRE+r'''
int main(void){
	struct RaBigNumber *n=num("%s",8),*a=num("%s",8),*e=num("01",8),*r=BnNewW(8); struct RaMontCtx *m;
	CHECK(RaMontCreate(n,&m)==0); CHECK(RaMontExpMod(m,r,a,e)==0); CHECK(same(r,"%s"));
	return 0; }
''' % (H(n),H(a),H(a))
