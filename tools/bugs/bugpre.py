import random
PRE = r'''
#include <racrypt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int hexv(int c){return c<='9'?c-'0':c-'a'+10;}
static struct RaBigNumber *num(const char *h, int words){
	struct RaBigNumber *b = BnNewW(words); unsigned char t[4096]; int n=(int)strlen(h)/2,i;
	for(i=0;i<n;i++) t[i]=(unsigned char)(hexv(h[2*i])*16+hexv(h[2*i+1]));
	BnSetUByteArray(b,t,n); return b; }
static int same(struct RaBigNumber *a, const char *h){ struct RaBigNumber *b=num(h,400); int r=BnCmp(a,b)==0; BnFree(b); return r; }
static int bytes(unsigned char *t, const char *h){ int n=(int)strlen(h)/2,i; for(i=0;i<n;i++) t[i]=(unsigned char)(hexv(h[2*i])*16+hexv(h[2*i+1])); return n; }
#define CHECK(c) do { if(!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
'''
def H(n):
    s = "%x" % n
    return ("0" if len(s) % 2 else "") + s
def derlen(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length()+7)//8, "big"); return bytes([128+len(b)]) + b
def tlv(t, c): return bytes([t]) + derlen(len(c)) + c
def derint(n): return tlv(2, n.to_bytes(n.bit_length()//8+1, "big", signed=True))
ALG = bytes.fromhex("300d06092a864886f70d0101010500")
def spki(n,e): return tlv(0x30, ALG + tlv(3, b"\0" + tlv(0x30, derint(n)+derint(e))))
def pkcs1(k): return tlv(0x30, derint(0)+b"".join(map(derint,k)))
def pkcs8(k): return tlv(0x30, derint(0)+ALG+tlv(4,pkcs1(k)))
def isp(n):
    if n<2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%p==0: return n==p
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def nextp(n):
    n|=1
    while not isp(n): n+=2
    return n
def key(p,q,e=65537):
    from math import gcd
    phi=(p-1)*(q-1); assert gcd(e,phi)==1
    d=pow(e,-1,phi); return [p*q,e,d,p,q,d%(p-1),d%(q-1),pow(q,-1,p)]
