#!/usr/bin/env python3
"""Generates spec/Tables.tla: the constant tables of the standards, each derived
from its definition (not taken from the code under test)."""
import math, sys, os
from fractions import Fraction
from decimal import Decimal, getcontext

def primes(n):
    r=[]; k=2
    while len(r)<n:
        if all(k%p for p in r if p*p<=k): r.append(k)
        k+=1
    return r
def iroot(n,k):
    lo,hi=0,1
    while hi**k<=n: hi*=2
    while lo<hi-1:
        m=(lo+hi)//2
        if m**k<=n: lo=m
        else: hi=m
    return lo
def frac_root(p,k,bits):           # fractional bits of p^(1/k)
    return iroot(p<<(k*bits),k)&((1<<bits)-1)
P80=primes(80)
def w32(x): return "<<%d,%d>>"%(x>>16,x&0xffff)
def w64(x): return "<<%d,%d,%d,%d>>"%(x>>48,x>>32&0xffff,x>>16&0xffff,x&0xffff)
def seq(l,f=str,per=12):
    it=[f(x) for x in l]; out=[]
    for i in range(0,len(it),per): out.append(",".join(it[i:i+per]))
    return "<<"+",\n  ".join(out)+">>"
out=[]; jout=[]
def d(name,l,f=str,c=""): 
    if c: out.append("\\* "+c)
    out.append("%s ==\n  %s"%(name,seq(l,f)))
    ty="long" if f is w64 else "int"
    if isinstance(l[0],list): jout.append("    static final int[][] %s = { %s };"%(name,", ".join("{ %s }"%", ".join(map(str,x)) for x in l)))
    else: jout.append("    static final %s[] %s = { %s };"%(ty,name,", ".join(("0x%xL"%x if f is w64 else "0x%x"%x) for x in l)))

# SHA-2
d("SHA256_H",[frac_root(p,2,32) for p in P80[:8]],w32,"fractional parts of square roots of primes 1..8")
d("SHA224_H",[frac_root(p,2,64)&0xffffffff for p in P80[8:16]],w32,"low words of the roots of primes 9..16")
d("SHA256_K",[frac_root(p,3,32) for p in P80[:64]],w32,"fractional parts of cube roots")
d("SHA512_H",[frac_root(p,2,64) for p in P80[:8]],w64)
d("SHA384_H",[frac_root(p,2,64) for p in P80[8:16]],w64)
d("SHA512_K",[frac_root(p,3,64) for p in P80[:80]],w64)
# SHA-512/t IVs by the generation function of FIPS 180-4
M64=(1<<64)-1
K512=[frac_root(p,3,64) for p in P80]; H512=[frac_root(p,2,64) for p in P80[:8]]
def sha512c(h,b):
    w=[int.from_bytes(b[i*8:i*8+8],'big') for i in range(16)]
    rr=lambda x,n:((x>>n)|(x<<(64-n)))&M64
    for i in range(16,80):
        s0=rr(w[i-15],1)^rr(w[i-15],8)^(w[i-15]>>7); s1=rr(w[i-2],19)^rr(w[i-2],61)^(w[i-2]>>6)
        w.append((w[i-16]+s0+w[i-7]+s1)&M64)
    a,b_,c,dd,e,f,g,hh=h
    for i in range(80):
        t1=(hh+(rr(e,14)^rr(e,18)^rr(e,41))+((e&f)^(~e&g&M64))+K512[i]+w[i])&M64
        t2=((rr(a,28)^rr(a,34)^rr(a,39))+((a&b_)^(a&c)^(b_&c)))&M64
        hh,g,f,e,dd,c,b_,a=g,f,e,(dd+t1)&M64,c,b_,a,(t1+t2)&M64
    return [(x+y)&M64 for x,y in zip(h,[a,b_,c,dd,e,f,g,hh])]
def ivt(t):
    m=("SHA-512/%d"%t).encode(); L=len(m)*8
    m=m+b"\x80"; m+=b"\0"*(112-len(m))+L.to_bytes(16,'big')
    return sha512c([x^0xa5a5a5a5a5a5a5a5 for x in H512],m)
d("SHA512_224_H",ivt(224),w64,"IV generation function of FIPS 180-4 5.3.6")
d("SHA512_256_H",ivt(256),w64)
# MD4/MD5/SHA1/HAS160
d("MD_H",[0x67452301,0xefcdab89,0x98badcfe,0x10325476],w32,"RFC 1320/1321")
d("SHA1_H",[0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0],w32)
getcontext().prec=60
def sin_tab():
    r=[]
    for i in range(1,65):
        x=Decimal(i); 
        # reduce and use the Taylor series with 60 digits
        t=x; s=Decimal(0); n=1
        while abs(t)>Decimal(10)**-55:
            s+=t; t=-t*x*x/((n+1)*(n+2)); n+=2
        r.append(int(abs(s)*(1<<32)))
    return r
getcontext().prec=120
d("MD5_T",sin_tab(),w32,"floor(2^32 * abs(sin(i)))")
d("SQ_K",[0]+[iroot(p<<60,2) for p in (2,3,5,10)],w32,"2^30 * sqrt(2), sqrt(3), sqrt(5), sqrt(10)")
d("CB_K",[iroot(p<<90,3) for p in (2,)],w32)

# pi
def pi_bits(n):
    # Machin with big integers
    g=64; one=1<<(n+g)
    def at(x):
        t=one//x; s=t; k=1; sg=-1; x2=x*x
        while t:
            t//=x2; k+=2; s+=sg*(t//k); sg=-sg
        return s
    return (4*(4*at(5)-at(239)))>>g
N=32*(18+1024)+64
pi=pi_bits(N); fr=pi-(3<<N)
def piw(i): return (fr>>(N-32*(i+1)))&0xffffffff
d("BF_P",[piw(i) for i in range(18)],w32,"Blowfish: fractional part of pi")
for s in range(4): d("BF_S%d"%s,[piw(18+256*s+i) for i in range(256)],w32)
# MD2 S table: Fisher-Yates driven by the decimal digits of pi
getcontext().prec=1000
digs=str(pi_bits(3000)*10**800//(1<<3000))
pos=0
def rand(n):
    global pos
    # n values 0..n-1
    x=int(digs[pos]); pos+=1; y=10
    if n>10: x=x*10+int(digs[pos]); pos+=1; y=100
    if n>100: x=x*10+int(digs[pos]); pos+=1; y=1000
    if x<n*(y//n): return x%n
    return rand(n)
S=list(range(256))
for i in range(2,257):
    j=rand(i); S[j],S[i-1]=S[i-1],S[j]
d("MD2_S",S,str,"RFC 1319: permutation from the digits of pi")
# GF(2^8)
def gm(a,b,p):
    r=0
    while b:
        if b&1: r^=a
        a<<=1
        if a&0x100: a^=p
        b>>=1
    return r
def gpow(a,e,p):
    r=1
    while e:
        if e&1: r=gm(r,a,p)
        a=gm(a,a,p); e>>=1
    return r
def aes_sbox():
    r=[]
    for x in range(256):
        b=gpow(x,254,0x11b); y=0
        for i in range(8):
            bit=(b>>i ^ b>>((i+4)%8) ^ b>>((i+5)%8) ^ b>>((i+6)%8) ^ b>>((i+7)%8) ^ 0x63>>i)&1
            y|=bit<<i
        r.append(y)
    return r
A=aes_sbox(); AI=[0]*256
for i,x in enumerate(A): AI[x]=i
d("AES_S",A,str,"FIPS 197: affine map of the inverse in GF(2^8)")
d("AES_SI",AI)
d("XT",[gm(x,2,0x11b) for x in range(256)],str,"multiplication by x")
# ARIA S2: B*x^247 + b (RFC 5794 2.4.2)
BM=[[0,1,0,1,1,1,1,0],[0,0,1,1,1,1,0,1],[1,1,0,1,0,1,1,1],[1,0,0,1,1,1,0,1],[0,0,1,0,1,1,0,0],[1,0,0,0,0,0,0,1],[0,1,0,1,1,1,0,1],[1,1,0,1,0,0,1,1]]
bv=[0,1,0,0,0,1,1,1]
def aff(M,v,x):
    y=0
    for i in range(8):
        s=v[i]
        for j in range(8): s^=M[i][j]&(x>>j)
        y|=(s&1)<<i
    return y
S2=[aff(BM,bv,gpow(x,247,0x11b)) for x in range(256)]
S2I=[0]*256
for i,x in enumerate(S2): S2I[x]=i
d("ARIA_S2",S2,str,"RFC 5794")
d("ARIA_S2I",S2I)
# SEED (RFC 4269): S1 = A1*x^247 + 169, S2 = A2*x^251 + 56 over x^8+x^6+x^5+x+1
A1=["10001010","11111110","10000101","01000010","01000101","00100001","10001000","00010100"]
A2=["01000101","10000101","11111110","00100001","10001010","10001000","01000010","00010100"]
def affs(M,c,x):
    y=0
    for i in range(8):          # row i, bit 7-i
        s=0
        for j in range(8): s^=int(M[i][j])&(x>>(7-j))
        y|=(s&1)<<(7-i)
    return y^c
SD1=[affs(A1,169,gpow(x,247,0x163)) for x in range(256)]
SD2=[affs(A2,56,gpow(x,251,0x163)) for x in range(256)]
d("SEED_S1",SD1,str,"RFC 4269")
d("SEED_S2",SD2)
# SEED round constants from the golden ratio
phi=iroot(5<<64,2)  # sqrt5 * 2^32
g=(phi-(1<<32))//2
kc=[]
k=0x9e3779b9
for i in range(16):
    kc.append(k); k=((k<<1)|(k>>31))&0xffffffff
d("SEED_KC",kc,w32)
# ARIA constants: fraction of 1/pi
def inv_pi(bits):
    n=bits+64; return ((1<<(2*n))//pi_bits(n))>>(n-bits)
ip=inv_pi(384)
d("ARIA_C",[[ (ip>>(384-128*(i+1)))>>(8*(15-j))&255 for j in range(16)] for i in range(3)],lambda l:seq(l),"fractional part of 1/pi")
if __name__=="__main__":
    path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","spec","Tables.tla")
    txt="---- MODULE Tables ----\n\\* Generated by tools/gen_tables.py from the definitions in the standards.\n"+"\n".join(out)+"\n====\n"
    open(path,"w").write(txt)
    path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","java","FastTables.java")
    open(path,"w").write("/* Generated by tools/gen_tables.py from the definitions in the standards. */\nclass FastTables {\n"+"\n".join(jout)+"\n}\n")
