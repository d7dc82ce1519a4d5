#!/usr/bin/env python3
"""Generate spec/spec_tables.inc: Unicode 17.0 data used by the reference model.

Input: the dump written by tools/ucd/main.go (Go 1.27's vendored x/net/idna and
x/text tables, Unicode 17.0) and spec/known_data.json (code points whose data in
the repository is known to be older, see known_findings.txt).  The output is
committed; this script only documents where it comes from."""
import json, re, sys
dump, known, out = sys.argv[1:4]
pat = re.compile(r'(\w+) (\d) \[([^\]]*)\] (\d) (\w+) (\w+) (\d+) \[([^\]]*)\] \[([^\]]*)\] (\d+) (\w+) (\w+) (\w+) (\w+)')
N = 0x110000
seq = lambda s: tuple(int(x, 16) for x in s.split())
st = [3] * N; mp = {}; jt = [0] * N; ccc = [0] * N; nfd = {}; nfc = {}
bidi = [0] * N; gm = [0] * N; ids = [0] * N; idc = [0] * N
JT = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4}
# reference bidi classes: 0 other/L, then the ones the Bidi rule names
GN = "L R EN ES ET AN CS B S WS ON BN NSM AL Control".split()
BC = {"R": 1, "AL": 2, "AN": 3, "EN": 4, "ES": 5, "CS": 6, "ET": 7, "ON": 8, "BN": 9, "NSM": 10}
for l in open(dump):
    g = pat.match(l).groups(); c = int(g[0], 16)
    st[c] = int(g[1]); jt[c] = JT.get(int(g[3]), 0); ccc[c] = int(g[6])
    if st[c] == 1: mp[c] = seq(g[2])
    if seq(g[7]) != (c,): nfd[c] = seq(g[7])
    nfc[c] = seq(g[8])
    b = int(g[9]); bidi[c] = BC.get(GN[b] if b < 15 else '', 0)
    gm[c] = g[10] == 'true'; ids[c] = g[11] == 'true'; idc[c] = g[12] == 'true'
def ranges(l):
    r = []
    for c in sorted(l):
        if r and r[-1][1] == c - 1: r[-1][1] = c
        else: r.append([c, c])
    return [[hex(a), hex(b)] for a, b in r]
kf = {}
if known != '-':
    for k, rs in json.load(open(known)).items():
        if k.startswith('_'): continue
        kf[k] = {c for a, b in rs for c in range(int(a, 16), int(b, 16) + 1)}
FLAG = {"norm": 20, "mark": 21, "bidi": 22, "join": 23}
hangul = lambda c: 0xAC00 <= c < 0xAC00 + 11172
prop = []
for c in range(N):
    v = ccc[c] | jt[c] << 8 | bidi[c] << 12 | int(gm[c]) << 16 | int(ids[c]) << 17 | int(idc[c]) << 18 | (st[c] == 0) << 19
    for k, b in FLAG.items():
        if c in kf.get(k, ()): v |= 1 << b
    prop.append(v)
maps = []; mid = {}
mapidx = []
for c in range(N):
    if st[c] == 1:
        if mp[c] not in mid: mid[mp[c]] = len(maps) + 3; maps.append(mp[c])
        mapidx.append(mid[mp[c]])
    else: mapidx.append({0: 0, 2: 1, 3: 2}[st[c]])
decs = []; did = {}; decidx = []
for c in range(N):
    if c in nfd and not hangul(c):
        d = nfd[c]
        if d not in did: did[d] = len(decs) + 1; decs.append(d)
        decidx.append(did[d])
    else: decidx.append(0)
pairs = {}
inv = {}
for c, d in nfd.items(): inv.setdefault(d, c)
nfcof = {}
for c in nfc:
    if c in nfd: nfcof[nfd[c]] = nfc[c]
for c, d in nfd.items():
    if hangul(c) or nfc[c] != (c,): continue
    b = d[-1]; p = d[:-1]
    a = nfcof.get(p, p)
    assert len(a) == 1, hex(c)
    pairs[(a[0], b)] = c
fst = sorted({a for a, b in pairs}); snd = sorted({b for a, b in pairs})
fi = {a: i + 1 for i, a in enumerate(fst)}; si = {b: i + 1 for i, b in enumerate(snd)}
f = open(out, 'w')
f.write("// Generated by tools/gen_spec.py from Unicode 17.0 data (Go 1.27 x/text, x/net/idna).\n")
def arr(t, n, v, w=16):
    f.write("static const %s %s[%d] = {\n" % (t, n, len(v)))
    for i in range(0, len(v), w): f.write(",".join(map(str, v[i:i + w])) + ",\n")
    f.write("};\n")
def two(t, n, v, B=128):
    blocks = {}; s1 = []; s2 = []
    for i in range(0, N, B):
        k = tuple(v[i:i + B])
        if k not in blocks: blocks[k] = len(blocks); s2 += k
        s1.append(blocks[k])
    arr("unsigned short", n + "_1", s1); arr(t, n + "_2", s2)
two("unsigned", "spec_prop", prop)
two("unsigned short", "spec_map", mapidx)
two("unsigned short", "spec_dec", decidx)
two("unsigned short", "spec_fst", [fi.get(c, 0) for c in range(N)])
two("unsigned char", "spec_snd", [si.get(c, 0) for c in range(N)])
def pool(name, seqs):
    off = [0]; data = []
    for s in seqs: data += s; off.append(len(data))
    arr("unsigned", name + "_data", data); arr("unsigned short", name + "_off", off)
pool("spec_mapping", maps); pool("spec_nfd", decs)
mat = [0] * ((len(fst) + 1) * (len(snd) + 1))
for (a, b), c in pairs.items(): mat[fi[a] * (len(snd) + 1) + si[b]] = c
arr("unsigned", "spec_comp", mat)
f.write("enum { SPEC_NSND = %d, SPEC_MAXMAP = %d, SPEC_MAXDEC = %d };\n" % (len(snd) + 1, max(map(len, maps)), max(map(len, decs))))
print(len(maps), max(map(len, maps)), len(decs), max(map(len, decs)), len(fst), len(snd), len(pairs))
