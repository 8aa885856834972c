#!/usr/bin/env python3
"""Writes harness/ucd.h: the general category and the one-to-one case mappings of every code point,
as ranges, from Python's copy of the Unicode character database (an oracle independent of /repo)."""
import unicodedata as U
D=0x7fffffff
def rec(c):
    s=chr(c); k=U.category(s)
    if k=='Cs' or (c&0xFFFE)==0xFFFE or 0xFDD0<=c<=0xFDEF: return ('XX',0,0,0)
    f=lambda t: (ord(t)-c) if len(t)==1 else D
    return (k,f(s.upper()),f(s.lower()),f(s.title()))
out=[];c=0
while c<0x110000:
    r=rec(c); e=c
    while e+1<0x110000 and rec(e+1)==r: e+=1
    out.append((c,e)+r); c=e+1
with open('/verif/harness/ucd.h','w') as o:
    o.write('/* Unicode %s: first, last, general category, upper, lower and title case offset (UD: not one-to-one). Generated by tools/gen_ucd.py */\n#define UD 0x7fffffff\n#define UCDN %d\nstatic const struct { unsigned a,b; char c[3]; int u,l,t; } UCD[UCDN]={\n'%(U.unidata_version,len(out)))
    for a,b,k,u,l,t in out: o.write('{0x%X,0x%X,"%s",%s,%s,%s},\n'%(a,b,k,*['UD' if x==D else x for x in(u,l,t)]))
    o.write('};\n')
print(len(out))
