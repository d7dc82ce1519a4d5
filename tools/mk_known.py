#!/usr/bin/env python3
"""One-off: list the code points whose data in the repository is older than
Unicode 17 (ucd dump, repo dump, repo) -> spec/known_data.json.
Never run by a check: the list is committed."""
import json, re, sys
sys.argv = [sys.argv[0]] + sys.argv[1:]
pat=re.compile(r'(\w+) (\d) \[([^\]]*)\] (\d) (\w+) (\w+) (\d+) \[([^\]]*)\] \[([^\]]*)\] (\d+) (\w+) (\w+) (\w+) (\w+)')
pat2=re.compile(r'(\w+) (\d) \[([^\]]*)\] (\d+) \[([^\]]*)\] \[([^\]]*)\] (\d+) (\d) (\d) (\d)')
GN="L R EN ES ET AN CS B S WS ON BN NSM AL Control".split()
RN="NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE".split()
NAMED={"R","AL","AN","EN","ES","CS","ET","ON","BN","NSM"}
cls=lambda x: x if x in NAMED else "other"
src=open(sys.argv[3]+'/src/validity.cpp').read()
def lst(n):
    m=re.search(r'uint32_t %s\[\] = \{([^}]*)\}'%n,src); return {int(x,16) for x in re.findall(r'0x\w+',m.group(1))}
V,R,L,D=map(lst,('virama','R','L','D'))
S={k:set() for k in('norm','mark','bidi','join')}
nfd={};nfc={}
cps=[]
for a,b in zip(open(sys.argv[1]),open(sys.argv[2])):
    g=pat.match(a).groups(); r=pat2.match(b).groups(); c=int(g[0],16); assert g[0]==r[0]
    assert g[1]==r[1] and g[2]==r[2]
    nfd[c]=tuple(int(x,16) for x in g[7].split()); nfc[c]=tuple(int(x,16) for x in g[8].split())
    cps.append(c)
    if g[6]!=r[3] or g[7]!=r[4] or g[8]!=r[5]: S['norm'].add(c)
    valid=g[1]=='0'
    if not valid: continue
    if (g[10]=='true')!=(r[7]=='1'): S['mark'].add(c)
    bs=cls(GN[int(g[9])]) if int(g[9])<15 else 'other'; br=cls(RN[int(r[6])])
    if bs!=br: S['bidi'].add(c)
    jt=int(g[3]); vir=g[6]=='9'
    if jt not in (0,1,2,3,4): print('jt',hex(c),jt)
    if (jt==1)!=(c in L) or (jt==2)!=(c in D) or (jt==4)!=(c in R) or vir!=(c in V) or (jt==3)!=(br=='NSM'): S['join'].add(c)
# a first character whose composition is missing is affected too
bad=[c for c in S['norm'] if nfd[c]!=(c,)]
inv={nfd[c]:c for c in cps if nfc[c]==(c,)}
for c in bad:
    p=nfd[c][:-1]; a=inv.get(p) if len(p)>1 else p[0]
    S['norm'].add(a)
ch=True
while ch:
    ch=False
    for c in cps:
        if c not in S['norm'] and nfd[c]!=(c,) and any(x in S['norm'] for x in nfd[c]): S['norm'].add(c); ch=True
def ranges(l):
    r=[]
    for c in sorted(l):
        if r and r[-1][1]==c-1: r[-1][1]=c
        else: r.append([c,c])
    return [["%X"%a,"%X"%b] for a,b in r]
o={'_comment':'Code points whose data in the pinned repository predates Unicode 17.0; see known_findings.txt.'}
for k in S: o[k]=ranges(S[k]); print(k,len(S[k]),len(o[k]),o[k] if k in('norm',) else '')
json.dump(o,open(sys.argv[4],'w'),indent=None,separators=(',',':')); 
print(len(V))
