# What each check runs: groups of symbolic-execution jobs per tier.
# A job is (name, entry point, seconds, "input parameters, @engine options", [marks that must be reached]).
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
STUBS = 'operator new never fails and returns fresh memory; memcpy/memmove/memset/strlen/memcmp/memchr are modelled by the engine; single-threaded atomics'
TRUST = ['clang 18 front end and SROA preserve the meaning of the sources', 'the symbolic executor and its BDD layer (verdicts cross-checked by z3 where it answers in time)', 'z3 4.8.12', 'reference data: Unicode 17.0 tables of Go 1.27 (equal to ICU 78 for NFC, NFD, gc=M, ID_Start, ID_Continue)']
PROPS = {}


def union(q, t):
    """the thorough tier holds every job of the quick one"""
    key = lambda g: tuple(str(g.get(k)) for k in ('h', 'env', 'flags', 'ub'))
    for g in q:
        for x in t:
            if key(x) == key(g): break
        else:
            t.append(dict(g)); continue
        have, names = {(j[1], j[3]) for j in x['jobs']}, {j[0] for j in x['jobs']}
        for j in g['jobs']:
            if (j[1], j[3]) not in have: x['jobs'].append((j[0] if j[0] not in names else 'q-' + j[0], j[1], 4 * j[2]) + tuple(j[3:]))


def prop(pid, what, bounds, outside, quick, thorough, **k):
    if isinstance(quick, list): union(quick, thorough)
    PROPS[pid] = dict(what=what, bounds={'quick': bounds[0], 'thorough': bounds[1]}, outside=outside,
                      groups={'quick': quick, 'thorough': thorough}, **k)


CODEC = lambda jobs: [dict(h='h_codec.cpp', init=False, jobs=jobs)]
dec = lambda n, s: ('dec%d' % n, 'codec_decode', s, 'n=%d' % n, ['accept', 'refuse'] if n > 1 else ['accept', 'refuse'])
enc = lambda n, s: ('enc%d' % n, 'codec_encode', s, 'n=%d' % n, ['accept', 'refuse'])
prop('C01', 'utf8_to_utf32 and utf32_length_from_utf8 against the well-formedness table of the Unicode standard',
     ('all byte strings of length 1-10, 12, 16 and 18', 'all byte strings of length 1-20 and 24'),
     'longer strings; the decoder keeps no state between characters beyond its position',
     CODEC([dec(n, 60) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 18)]),
     CODEC([dec(n, 600) for n in list(range(1, 21)) + [24, 28]]))
prop('C02', 'utf32_to_utf8 and utf8_length_from_utf32 against the definition of UTF-8, and decoding of the result',
     ('all sequences of 1-7 arbitrary 32-bit values', 'all sequences of 1-8 arbitrary 32-bit values'),
     'longer sequences',
     CODEC([enc(n, 60) for n in range(1, 8)]), CODEC([enc(n, 800) for n in range(1, 9)]))

PUNY = lambda jobs: [dict(h='h_puny.cpp', init=False, jobs=jobs)]
shapes = [('4', 'n=4'), ('5p1', 'n=5,pre=1'), ('6p2', 'n=6,pre=2'), ('9p5', 'n=9,pre=5'), ('7n4', 'n=7,nines=4'),
          ('8n5', 'n=8,nines=5'), ('8n4p1', 'n=8,nines=4,pre=1'), ('8n5m', 'n=8,nines=5,digit=109')]
SH = [('t%d' % t, 't=%d' % t) for t in range(len(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness/puny_shapes.inc')).read().split()))]
small = [('%d' % n, 'n=%d' % n) for n in (1, 2, 3)]
deep = [('5', 'n=5'), ('6p1', 'n=6,pre=1'), ('7p2', 'n=7,pre=2'), ('8n3', 'n=8,nines=3'), ('9n5', 'n=9,nines=5')]
pj = lambda e, l, s: [(e[5:] + k, e, s, v, []) for k, v in l]
prop('C04', 'utf32 result of punycode_to_utf32 against the decoding procedure of RFC 3492 section 6.2',
     ('all byte strings of length 1-4; length 5 and 6 with a delimiter after 1 and 2 arbitrary bytes, length 9 after 5; runs of 4 and 5 high digits followed by 3 arbitrary bytes (overflow region); 52 strings with 1-5 free places each: around "xn--", deltas near 2^31, near the code point limit, in the middle of a chain, labels of up to 256 basic code points',
      'as quick, and all byte strings of length 5, length 6 and 7 with delimiter, longer runs'),
     'longer strings; decoded values are compared with 64-bit arithmetic so every overflow in the bound is seen',
     PUNY(pj('puny_decode', small + shapes + SH, 60)), PUNY(pj('puny_decode', small + shapes + SH + deep, 800)))
prop('C05', 'verify_punycode against punycode_to_utf32 of the same build and against RFC 3492',
     ('as C04', 'as C04'), 'longer strings',
     PUNY(pj('puny_verify', small + shapes + SH, 60)), PUNY(pj('puny_verify', small + shapes + SH + deep, 800)))
encs = [('1', 'n=1'), ('2', 'n=2,bits=11'), ('2a', 'n=2,bits=21,k0=7'), ('2b', 'n=2,bits=21,k1=7'),
        ('5a', 'n=5,bits=21,k0=7,k1=7,k3=7,k4=7'), ('2c', 'n=2,bits=13,b0=0x4e00,b1=0x4e00'), ('3', 'n=3,bits=8'),
        ('3a', 'n=3,bits=9,b0=0x4e00,b1=0x4e00,b2=0x400'), ('3b', 'n=3,bits=9,b0=0x80,b1=0x4e00,b2=0x4e00'),
        ('4', 'n=4,bits=8,b0=0x4e00,b1=0x80,b2=0x1f600,b3=0x400')]
eshapes = [('s%d' % i, 'shape=1,' + x) for i, x in enumerate((
    'n=5,b0=97,b1=98,b2=99,b3=100,k4=21', 'n=5,k0=21,b1=97,b2=98,b3=99,b4=100', 'n=5,b0=97,b1=98,k2=21,b3=99,b4=100', 'n=2,b0=0x4e00,k1=21', 'n=2,k0=21,b1=0x4e00',
    'n=3,b0=0x4e00,b1=0x4e8c,k2=21', 'n=3,b0=0xe9,k1=21,b2=0xe9', 'n=3,b0=0x1f600,k1=21,b2=0x1f600', 'n=4,b0=120,b1=110,b2=45,k3=21', 'n=4,b0=120,b1=110,k2=21,b3=45',
    'n=5,b0=120,b1=110,b2=45,b3=45,k4=21', 'n=5,k0=7,k1=7,k2=7,k3=7,b4=0xe9', 'n=1,k0=21,pre=20,c=0x4e00', 'n=1,k0=21,pre=20,c=0x4e00,post=20,d=0x80', 'n=4,b0=0x10ffff,k1=21,b2=0x80,b3=0x7f',
    'n=1,k0=21,pre=100,c=0x10ffff', 'n=1,k0=15,b0=0x80,pre=60', 'n=1,k0=15,b0=0x80,post=60', 'n=1,k0=12,b0=0x80,pre=59,post=59', 'n=2,b0=0xe9,k1=15,b1=0x80,pre=60', 'n=2,k0=15,b0=0x80,b1=0xfc,post=60',
    'n=1,k0=12,b0=0x10000,pre=130,post=20'))]
prop('C06', 'utf32_to_punycode against the encoding procedure of RFC 3492 section 6.3, appended to an output that already holds text',
     ('one arbitrary 32-bit value; two 11-bit values; two and five values of which all but one are ASCII; two 13-bit values around U+4E00; three 8-bit values; three and four values in differing 512/256-blocks; any value beside fixed neighbours and inside runs of up to 200 code points',
      'as quick, plus four and six values with repetitions'),
     'other combinations of four and more non-ASCII code points',
     PUNY(pj('puny_encode', encs + eshapes, 60)),
     PUNY(pj('puny_encode', encs + eshapes, 800) + [('4d', 'puny_encode', 800, 'n=4,bits=6,b0=0x80,b1=0x80,b2=0x80,b3=0x80,nm=1,@split=100', []),
          ('6d', 'puny_encode', 800, 'n=6,bits=16,b0=0x80,k0=7,b1=0x80,k1=7,k2=0,b2=0x100,k3=0,b3=0x100,k4=7,k5=5,b5=0xfc', [])]))
backs = [('2', 'n=2'), ('3', 'n=3'), ('5p1', 'n=5,pre=1,fixed=1'), ('6p2', 'n=6,pre=2,fixed=1'), ('9p5', 'n=9,pre=5,fixed=1')]
rounds = [('1', 'n=1'), ('2', 'n=2,bits=11'), ('3a', 'n=3,bits=21,k0=7,k1=7')]
prop('C03', 'decode(encode(x)) = x for accepted x, encode(decode(s)) = s for accepted s of scalar values',
     ('encode first: one arbitrary value, two 11-bit values, one arbitrary value after two ASCII ones; decode first: all byte strings of length 2 and 3, and 3 arbitrary bytes after fixed prefixes of 1, 2 and 5 letters and a delimiter; the shapes of C04 and C06',
      'as quick, plus three 8-bit values, all strings of length 4'),
     'longer labels',
     PUNY(pj('puny_back', backs + [x for x in SH if x[0] not in ('t26', 't28', 't29', 't31', 't35')], 60) + pj('puny_round', rounds + eshapes, 60)),
     PUNY(pj('puny_back', backs + SH + [('4', 'n=4,@opcap=4000000,@nodes=200000000')], 800) + pj('puny_round', rounds + eshapes + [('3', 'n=3,bits=8')], 800)))

MD = ['mapped', 'disallowed']
# fixed neighbours, neighbours related to the free value, an earlier call with a related value, long runs around it
def map_jobs(s, quick):
    J = [('m1', 'map_seq', s, 'n=1', MD), ('m2', 'map_seq', 2 * s, 'n=2', MD)]
    for k, d in enumerate((0, 1, 0x20, 0x80, 0x100, 0x2000, 0x10000, 0x20000)): J.append(('rel%x' % d, 'map_shape', s, 'n=2,k0=32,r1=1,b1=%d' % d, MD))
    for d in (0, 0x10000) if quick else (0, 1, 0x20, 0x100, 0x10000, 0x20000): J += [('rel3-%x' % d, 'map_shape', s, 'n=3,k0=32,r1=1,r2=1,b2=%d' % d, MD), ('call%x' % d, 'map_shape', s, 'n=2,k0=32,r1=1,b1=%d,cut=1' % d, MD)]
    for k, (a, b) in enumerate(((0x4e00, 0x130), (0xdf, 0xad), (0x61, 0x41), (0xfdfa, 0x200d), (0xad, 0xfdfa), (0x10400, 0x3002))):
        J.append(('mid%d' % k, 'map_shape', s, 'n=3,b0=%d,k1=32,b2=%d' % (a, b), MD))
    J += [('call', 'map_shape', s, 'n=2,k0=32,k1=32,cut=1', MD), ('run', 'map_shape', s, 'n=1,k0=32,pre=70,post=70', MD), ('runx', 'map_shape', s, 'n=2,k0=32,r1=1,b1=0x10000,pre=16,c=0xfdfa', MD), ('runi', 'map_shape', s, 'n=1,k0=32,pre=40,c=0xad,post=40,d=0xdf', MD)]
    J.append(('m3', 'map_seq', 4 * s, 'n=3,again=0', MD))
    if not quick: J.append(('m3a', 'map_seq', 20 * s, 'n=3', MD))
    return J
prop('C07', 'map() against the IDNA 17.0 mapping table (Unicode data of Go 1.27), output buffer not empty before; mapping again changes nothing',
     ('every sequence of 1-3 arbitrary 32-bit values; every value between fixed neighbours, beside values at eight distances from it, after an earlier call with any value, and inside runs of 16-140 code points', 'as quick, three values mapped twice, more neighbours'), 'other long sequences',
     [dict(h='h_map.cpp', jobs=map_jobs(60, True))], [dict(h='h_map.cpp', jobs=map_jobs(100, False))])
def shape(name, s, spec, extra=''):
    """spec: one 'base:bits' (hex base) or 'base' per code point"""
    q = ['n=%d' % len(spec.split())]
    for i, x in enumerate(spec.split()):
        b, _, k = x.partition(':')
        q.append('b%d=0x%s' % (i, b))
        if k: q.append('k%d=%s' % (i, k))
    return (name, 'norm_long' if 'pre' in extra else 'norm_ranges', s, ','.join(q) + extra, ['norm'])
def norm_jobs(s, quick, p):
    J = [('n1', 'norm_nfc', s, 'n=1,nm=1', ['norm']), ('n2', 'norm_nfc', 5 * s, 'n=2,nm=1,@split=300', ['norm'])]
    for k, x in enumerate(('1100:8 1100:8 1100:8', '1100:8 1100:8 1100:8 1100:8', 'ac00:14 1100:8', 'ac00:7 1100:8 1100:8 1100:8 1100:8', '1100:8 1161 11a0:6 300:6', '300:7 ac00:7 1100:8 300:7',
                           '40:6 300:6 40:6 300:6', '71 300:7 71 300:7', '300:7 71 300:7 300:7', '61 300:7 300:7', '40:6 300:6 300:6', '61 300:6 300:6 300:6', '0:21 301', '0:21 301 323', '61 0:21 301', '301 0:21 323', '61 300:7 0:21',
                           '900:10 900:10 900:10', '3040:8 3040:8 3040:8', '1d150:6 1d150:6 1d150:6', '1f00:8 300:7 300:7', '1e00:8 300:7 300:7', '11000:10 11000:10 11000:8', '590:7 590:7 590:7', '600:8 600:8 600:8', '3b1 313 300:7 345', 'f00:8 f00:8 f00:8')):
        J.append(shape('s%d' % k, s, x))
    for k, (x, e) in enumerate((('300:7 300:7', ',pre=20,post=20'), ('1100:8 1100:8', ',pre=40,c=0xac01,post=3'), ('300:7 300:7', ',pre=40,post=0,c=0x323'), ('0:32', ',pre=64,post=64'), ('0:21', ',pre=64,post=64,c=0xe9,d=0x300'))):
        J.append(shape('run%d' % k, s, x, e))
    if not quick:
        for k, x in enumerate(('0:21 300:7', '0:21 300:7 300:7', '3a0:6 300:7 300:7 340:4', '0:21 301 327 323', '0:21 0:21 301', '41 0:21 0:21', '1e00:9 300:7 300:7 300:5', '300:7 300:7 300:7 300:7')): J.append(shape('t%d' % k, 20 * s, x))
        J += [shape('trun0', 20 * s, '300:7 0:21', ',pre=64,post=30,d=0x301'), shape('trun1', 20 * s, '0:21', ',pre=100,post=30,c=0x344,d=0x327')]
    return [j[:3] + (j[3] + ',p=%d' % p,) + j[4:] for j in J]
for pid, what in (('C08', 'normalize() against NFC computed from the Unicode 17 data by the definition (decompose, order, compose)'),
                  ('C09', 'is_already_nfc() against equality with NFC computed from the Unicode 17 data; argument unchanged')):
    prop(pid, what, ('every sequence of 1 and 2 arbitrary 32-bit values; every code point beside and between fixed marks and letters; sequences of 3-5 code points of the Hangul, Latin, Greek, Hebrew, Arabic, Indic, Tibetan, Kana, Kaithi, musical and combining blocks; runs of up to 128 code points around them',
                     'as quick, every code point followed by two arbitrary combining marks, pairs beside fixed characters, more runs'), 'other sequences of three and more code points; the code points of known_findings.txt, set norm',
         [dict(h='h_norm.cpp', jobs=norm_jobs(60, True, int(pid[1:])))], [dict(h='h_norm.cpp', jobs=norm_jobs(60, False, int(pid[1:])), timeout=10000)])
NORM = [('n1', 'norm_nfc', 60, 'n=1,nm=1', ['norm']), ('n2', 'norm_nfc', 300, 'n=2,nm=1,@split=300', ['norm'])]
lab = lambda p, n, s, extra='', reach=(): ('l%d%s' % (n, extra.replace('=', '').replace(',', '')), 'label_valid', s, 'n=%d,p=%d,r64=1%s' % (n, p, extra and ',' + extra), list(reach))
LAB = lambda jobs: [dict(h='h_label.cpp', jobs=jobs)]
def lshape(p, s, spec, run='', reach=()):
    """spec: per place a hex code point or * (any); run: pre=..,c=..,post=..,d=.."""
    q = ['n=%d' % len(spec.split())]
    for i, x in enumerate(spec.split()): q.append('k%d=1' % i if x == '*' else 'b%d=0x%s' % (i, x))
    return ('_'.join(spec.split()).replace('*', 'x') + run.replace('=', '').replace(',', '_'), 'label_shape', s, ','.join(q) + (',' + run if run else '') + ',p=%d,r64=1' % p, list(reach))
LS11 = [(x, '') for x in ('628 200c 64b * 628', '628 200c * * 628', '628 * * 200c 628', '628 * 200c * 628', '* 64b 200c 64b *', '628 64b 64b 200c 64b 64b *', '* 64b 64b 200c 64b 64b 628', '628 200c 628 200c *',
        '* 200c 628 200c 628', '915 94d 200d 94d 200d *', '915 94d * 200d 915', '915 94d 200c * 915', '* 94d 200c 200d 915', '915 94d 200d * 200d', '628 200c 64b 200c *', '628 200c * 200c 628', '61 62 * 200d 61', '628 626 200c * 628')] + [
       ('628 200c *', 'pre=20,c=0x628'), ('200c *', 'pre=20,c=0x64b') , ('628 64b 200c', 'pre=0,post=0'), ('* 200c', 'pre=30,c=0x628,post=1,d=0x628'), ('628 200c', 'post=30,d=0x64b'), ('628 200c *', 'post=30,d=0x64b'), ('* 200d', 'pre=40,c=0x915,post=3,d=0x915'),
       ('* 200c', 'pre=64,c=0x628,post=64,d=0x628'), ('200c *', 'pre=1,c=0x628,post=20,d=0x628'), ('* 200c 628', 'post=260,d=0x628'), ('94d 200d *', 'pre=260,c=0x915')]
LS12 = [(x, '') for x in ('5d0 * * *', '5d0 31 * *', '5d0 661 * *', '5d0 * 31 *', '61 * * 31', '61 * * *', '5d0 31 * 661', '5d0 300 * 300', '627 * * 300', '31 * * 5d0', '* 5d0 * 61', '5d0 2d * *', '5d0 * 300 300', '61 * 300 300 *')] + [
       ('*', 'pre=40'), ('* *', 'pre=40'), ('*', 'pre=40,c=0x5d0'), ('*', 'pre=3,c=0x5d0,post=40,d=0x300'), ('*', 'post=40'), ('*', 'post=40,d=0x5d0'), ('5d0 *', 'post=40,d=0x5d0'), ('e9 *', 'post=70'), ('*', 'pre=64,c=0xe9,post=64,d=0x4e00'), ('*', 'pre=260,post=3'), ('661 *', 'pre=70,c=0x5d0'),
       ('5d0 31 *', 'post=60,d=0x5d0'), ('*', 'pre=130,c=0x5d0,post=130,d=0x300')]
LS10 = [('*', 'post=40'), ('*', 'pre=20,post=20'), ('* * *', 'pre=1'), ('* 300 300 *', ''), ('61 * * *', ''), ('*', 'pre=260'), ('*', 'post=260,d=0x300')]
LSJ = lambda p, L, s: [lshape(p, s, x, r) for x, r in L]
prop('C10', 'is_label_valid() against the rule on leading marks; labels of IDNA-valid code points',
     ('every label of 1-4 IDNA-valid code points; every label of 1-3 arbitrary 32-bit values; up to three free code points around and between fixed marks and inside runs of 20-260', 'as quick, and 4 free code points beside fixed ones'), 'other labels of five and more code points',
     LAB([lab(10, 1, 60, 'any=1', ['mark']), lab(10, 2, 60, 'any=1', ['mark']), lab(10, 3, 60, 'any=1', ['mark']), lab(10, 4, 120, '', ['mark', 'later']), lab(10, 1, 60, '', ['mark']), lab(10, 2, 60, '', ['mark', 'later']), lab(10, 3, 120, '', ['mark', 'later'])] + LSJ(10, LS10, 60)),
     LAB([lab(10, n, 600) for n in (1, 2, 3, 4)] + LSJ(10, LS10, 600)))
JQ = [(1, 'zwj=0'), (1, 'zwnj=0'), (2, 'zwj=1'), (2, 'zwnj=1'), (2, 'zwnj=0'), (2, 'zwj=0'), (3, 'zwnj=1'), (3, 'zwnj=2'), (3, 'zwj=2'), (3, 'zwj=1'), (3, 'zwnj=0,zwj=2'),
      (4, 'zwnj=1'), (4, 'zwnj=2'), (4, 'zwj=2'), (4, 'zwnj=1,zwj=3'), (4, 'zwj=2,zwnj=3')]
prop('C11', 'is_label_valid() against RFC 5892 appendix A rules for joiners, combined with the other validity rules',
     ('every label of 2-4 IDNA-valid code points (joiners among them), labels of 5 with joiners at given places; up to four free code points beside fixed ones and in runs of 20-260', 'as quick, and labels of 5 code points with a joiner at every inner place'), 'longer labels',
     LAB([lab(11, n, 60, x) for n, x in JQ] + [lab(11, 2, 60), lab(11, 3, 60), lab(11, 4, 200), lab(11, 5, 200, 'zwnj=2'), lab(11, 5, 200, 'zwnj=1,zwj=3')] + LSJ(11, LS11, 60)), LAB([lab(11, n, 600, x) for n, x in JQ + [(5, 'zwnj=2'), (5, 'zwnj=1'), (5, 'zwnj=3'), (5, 'zwj=2,zwnj=3')]] + [lab(11, 3, 600)] + LSJ(11, LS11, 600)))
prop('C12', 'is_label_valid() against the six conditions of RFC 5893 section 2; labels of IDNA-valid code points',
     ('every label of 1-4 IDNA-valid code points; up to four free code points beside fixed ones of the classes and inside runs of 40-130', 'as quick, more places'), 'other labels of five and more code points',
     LAB([lab(12, 1, 60, '', ['accept', 'refuse']), lab(12, 2, 60, '', ['accept', 'refuse']), lab(12, 3, 120, '', ['accept', 'refuse']), lab(12, 4, 200, '', ['accept', 'refuse'])] + LSJ(12, LS12, 60)),
     LAB([lab(12, n, 600, '', ['accept', 'refuse']) for n in (1, 2, 3, 4)] + LSJ(12, LS12, 600)))

NOT_APPLICABLE = {
    'C30': 'the packing script is Python that writes its payload through zlib; there is no symbolic executor for CPython plus zlib here, and its result over concrete tables would be a single concrete run',
}

OVER = dict(h='h_ascii.cpp', jobs=[('over%d' % n, 'over_empty', 60, 'n=%d' % n, ['refused']) for n in (16385, 16386, 20000)])
PIPE = lambda jobs: [dict(h='h_pipe.cpp', jobs=jobs)]
tp = lambda e, ts, s, extra='', reach=(): [('%s%d' % (e[0], t), e, s, 't=%d%s' % (t, extra), list(reach)) for t in ts]
TOUT = 'domains of other shapes: longer labels with many arbitrary characters, more than four labels'
XA = list(range(80, 94)) + [98, 102, 103, 104, 138, 139, 140, 143]  # with xn-- labels
A1 = [t for t in range(80, 110) if t not in (109,)] + [138, 139, 140, 143, 144, 146, 148]  # quick
A2 = A1 + [109, 136, 142, 145, 147]
U1 = list(range(110, 136)) + [86, 139, 140, 143, 144]
TB = 'templates of harness/templates.inc: every assignment of the free bytes and code points in each'
prop('C14', 'to_ascii() against the UTS #46 procedure written from the standard (harness/spec.h)',
     (TB + ' (one arbitrary code point of 2-4 UTF-8 bytes alone and next to ASCII and dots; 1-3 arbitrary bytes; blocks of Latin, Greek, Hebrew, Arabic, Devanagari, Hangul, CJK, combining marks and general punctuation combined; xn-- labels)',
      'as quick with more templates'), TOUT,
     PIPE(tp('ascii_spec', [0, 2, 3, 4, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 32, 33, 34, 35, 39, 42, 43, 44, 47, 49] + A1, 100)),
     PIPE(tp('ascii_spec', list(range(0, 50)) + A2, 800)))
prop('C15', 'to_ascii() output is lower-case ASCII with the label count of the mapped input, and a fixed point; empty on failure',
     (TB, TB), TOUT,
     PIPE(tp('ascii_fixed', [0, 2, 3, 4, 7, 8, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 33, 34, 35, 39, 44, 47, 49] + A1, 100)) + [OVER],
     PIPE(tp('ascii_fixed', list(range(0, 50)) + A2, 800)) + [OVER])
prop('C16', 'to_ascii() of domains that hold xn-- labels next to non-ASCII ones, against the decode/map/normalize/validate procedure',
     (TB + ' with xn-- labels (up to three arbitrary Punycode digits, delimiters, non-ASCII characters behind the prefix, several xn-- labels, a free prefix)', 'as quick with more templates'), TOUT,
     PIPE(tp('ascii_spec', [35, 36, 37, 38, 39, 40, 42, 43, 44, 45, 46, 47, 48, 49] + XA, 100, ',p=16')),
     PIPE(tp('ascii_spec', list(range(35, 50)) + XA + [136, 144], 800, ',p=16')))
prop('C17', 'to_unicode() against the procedure written from the standard',
     (TB + ' (xn-- labels with up to three arbitrary digits or bytes, free prefixes, upper case, up to five arbitrary bytes)', 'as quick with more templates'), TOUT,
     PIPE(tp('unicode_spec', list(range(50, 70)) + U1, 100)),
     PIPE(tp('unicode_spec', list(range(0, 80)) + U1 + [80, 81, 82, 83, 84, 94, 95, 136, 137], 800)))
prop('C18', 'to_ascii(), to_unicode() of the result, to_ascii() of that: same name; decoded form equals the mapped and normalized input',
     (TB, TB), TOUT,
     PIPE(tp('round_trip', [0, 2, 3, 7, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 27, 29, 30, 31, 33, 34, 35, 39, 44, 47, 49] + A1, 100) + [('r1', 'round_trip', 100, 't=1,@split=64', [])]),
     PIPE(tp('round_trip', list(range(0, 50)) + A2, 800)))
eqv = [('k0a', 'k=0,hi=0x7ff,a=70,b=73'), ('k0d', 'k=0,hi=0x7ff,a=71,b=77'), ('k0c', 'k=0,lo=0x10000,a=70,b=73'), ('k0b', 'k=0,lo=0x800,hi=0xffff,a=70,b=73'),
       ('k1a', 'k=1,hi=0x7ff,a=70,b=73'), ('k1b', 'k=1,lo=0x800,hi=0xffff,a=70,b=73'), ('k1c', 'k=1,lo=0x10000,a=70,b=73'),
       ('k2a', 'k=2,a=71,b=77'), ('k2b', 'k=2,a=79,b=74'), ('k3a', 'k=3,a=79,b=77'), ('k3b', 'k=3,a=74,b=79'), ('k3c', 'k=3,a=74,b=73'), ('k4', 'k=4,a=74,b=73'), ('k4b', 'k=4,a=78,b=73'),
       ('k0x', 'k=0,a=149,b=150'), ('k0y', 'k=0,a=151,b=152'), ('k3x', 'k=3,a=149,b=150'), ('k3y', 'k=3,a=157,b=158'), ('k3z', 'k=3,a=153,b=155'), ('k2x', 'k=2,a=153,b=150'), ('k2y', 'k=2,a=70,b=155'), ('k2z', 'k=2,a=71,b=161'), ('k0l', 'k=0,hi=0x7ff,a=153,b=73'), ('k0m', 'k=0,hi=0x7ff,a=154,b=70'),
       ('k1l', 'k=1,hi=0x7ff,a=153,b=73'), ('k1m', 'k=1,hi=0xffff,a=154,b=70'), ('k1n', 'k=1,hi=0xffff,a=156,b=73'), ('k4l', 'k=4,a=154,b=70'), ('k4m', 'k=4,a=160,b=70'), ('k3w', 'k=3,a=159,b=159')]
eqc = lambda cs, a, b: [('c%d-%d-%d' % (c, a, b), 'k=5,a=%d,b=%d,c=%d' % (a, b, c)) for c in cs]
prop('C31', 'to_ascii() on pairs of spellings: ASCII letters in either case (every choice per letter), a code point and its mapping, and its canonical decomposition, full-stop variants, an ignored code point inserted, two marks exchanged',
     ('every code point in one context each (BMP and supplementary), full stops and ignored code points in several contexts, every pair of combining marks U+0300-037F; every case choice in 12 templates with xn-- labels of up to three free digits', 'as quick in more contexts and templates'), 'several differences at once; other contexts',
     PIPE([(k, 'equiv', 100, p, ['compared']) for k, p in eqv + eqc([36, 42, 47, 49, 54, 58, 59], 72, 70) + eqc([35, 39, 43, 53, 68], 70, 73)]),
     PIPE([(k, 'equiv', 800, p, ['compared']) for k, p in eqv + eqc(list(range(35, 70)) + [4, 7, 20, 24], 72, 70) + eqc(list(range(35, 70)) + [3, 20, 30], 70, 73)] + [('%s-%d-%d' % (k, a, b), 'equiv', 800, 'k=%d%s,a=%d,b=%d' % (k[0], k[1], a, b), []) for k in ((0, ',hi=0x7ff'), (1, ',hi=0x7ff'), (0, ',lo=0x800,hi=0xffff'), (1, ',lo=0x800,hi=0xffff'), (3, ''), (2, '')) for a in (71, 72, 74, 75, 76, 78) for b in (71, 73, 77)]))
lj = lambda ps, s: [('a%d-%d' % p, 'labels_ascii', s, 'a=%d,b=%d' % p, []) for p in ps]
uj = lambda ps, s: [('u%d-%d' % p, 'labels_unicode', s, 'a=%d,b=%d' % p, []) for p in ps]
cj = lambda ps, s: [('c%d-%d' % p, 'calls', s, 'a=%d,b=%d' % p, []) for p in ps]
prop('C32', 'to_ascii()/to_unicode() of a two-part domain against the conversions of its parts; the same call before and after another one',
     (TB + ', in pairs', TB + ', in pairs'), TOUT,
     PIPE(lj([(20, 24), (0, 0), (22, 0), (20, 0), (24, 23), (35, 20), (20, 35), (42, 20), (81, 20), (20, 81), (80, 20), (94, 20), (20, 95), (95, 94), (103, 0), (88, 81), (98, 20)], 100) + uj([(50, 54), (54, 54), (10, 50), (58, 50), (114, 115), (115, 113), (121, 50), (50, 120), (118, 110), (124, 114), (95, 110)], 100) + cj([(20, 54), (54, 20), (0, 0), (43, 20), (20, 0), (95, 20), (98, 81), (81, 80), (107, 0), (113, 110), (120, 114), (121, 0), (85, 81), (0, 115)], 100)),
     PIPE(lj([(a, b) for a in (0, 3, 20, 22, 24, 25, 35, 40, 49) for b in (0, 3, 20, 22, 24, 26, 35, 45)], 800) + uj([(a, b) for a in (50, 54, 58, 63, 69) for b in (50, 54, 58, 63, 69)], 800) + cj([(a, b) for a in (0, 20, 24, 35, 43, 50, 54) for b in (0, 20, 24, 35, 50, 54)], 800)))

ASC = lambda jobs: [dict(h='h_ascii.cpp', init=False, jobs=jobs)]
def ascii_jobs(ns):
    r = []
    for n in ns:
        r += [('d%d' % n, 'ascii_domain', 60, 'n=%d,off=%d' % (n, n * 5 % 8), ['converted']), ('e%d' % n, 'ascii_exact', 60, 'n=%d' % n, ['mapped']),
              ('i%d' % n, 'ascii_inplace', 60, 'n=%d,off=%d' % (n, n * 3 % 9), ['mapped'])]
    return r + [('l%d-%d' % x, 'ascii_long', 100, 'n=%d,step=%d' % x, ['long']) for x in ((100, 1), (1000, 1), (4096, 1), (16377, 61), (16384, 1), (16383, 1021), (16385, 1021))]
prop('C13', 'to_ascii() and ascii_map() on ASCII text against lower-casing byte by byte; guard bytes around buffers',
     ('every ASCII string of length 0-33, 40, 48 and 63 at several alignments; all strings of length 100, 1000, 4096 and 16384, and of 16377 and 16383 with part of the bytes fixed; 16385 refused', 'every length 0-63'), 'lengths between those given',
     ASC(ascii_jobs(list(range(0, 34)) + [40, 48, 60])), ASC(ascii_jobs(list(range(0, 64)))))
prop('C19', 'contains_forbidden_domain_code_point() against the list of the URL standard',
     ('every byte string of length 0-24, 31, 32, 33, 63, 64, 65 and 130', 'also length 300, 1000 and 3000'), 'other lengths',
     ASC([('f%d' % n, 'forbidden', 60, 'n=%d' % n, ['forbidden', 'clean'] if n else ['clean']) for n in list(range(0, 25)) + [31, 32, 33, 63, 64, 65, 130]]),
     ASC([('f%d' % n, 'forbidden', 600, 'n=%d' % n, []) for n in list(range(0, 129)) + [255, 256, 257, 300, 1000, 3000]]))
prop('C20', 'valid_name_code_point() against ID_Start / ID_Continue of Unicode 17 and the ECMAScript additions',
     ('every 32-bit value and both flags; every pair of consecutive questions', 'the same'), 'nothing of the inputs; longer call histories',
     [dict(h='h_ident.cpp', jobs=[('one', 'ident', 60, '', ['accept', 'refuse']), ('first', 'ident', 60, 'first=1', ['accept', 'refuse']), ('later', 'ident', 60, 'first=0', ['accept', 'refuse']), ('twice', 'ident_twice', 60, '', ['again']), ('same', 'ident_same', 60, '', ['again']), ('next', 'ident_same', 60, 'k=1', ['again']), ('plane', 'ident_same', 60, 'k=0x10000', ['again']), ('hist', 'ident_history', 60, '', ['again']), ('hist2', 'ident_history', 60, 'n=70,step=0x4fd1,from=0x61', ['again'])])],
     [dict(h='h_ident.cpp', jobs=[('hist3', 'ident_history', 600, 'n=300,step=0x1234f,from=0x30', ['again']), ('far', 'ident_same', 600, 'k=0x100', ['again'])])])
fm = lambda ts, s: [('m%d' % t, 'forms', s, 't=%d' % t, ['forms']) for t in ts]
LIM = dict(h='h_ascii.cpp', jobs=[('lim%d' % n, 'limit_ascii', 60, 'n=%d' % n, ['limit']) for n in (1000, 16383, 16384, 16385, 16386, 20000)] + [('any', 'limit_any', 60, '', ['over'])])
prop('C21', 'string-returning against buffer-filling forms of to_ascii, to_unicode and map with differing previous contents; the length limit',
     (TB + '; lengths 1000, 16383-16386, 20000 with three free bytes, and every length 16385 to 2^40', 'more templates'), TOUT,
     PIPE(fm([0, 3, 10, 11, 13, 18, 20, 22, 24, 27, 35, 39, 44, 50, 54, 58, 81, 82, 85, 88, 94, 95, 97, 98, 102, 110, 113, 115, 118, 122, 125, 128], 100)) + [LIM], PIPE(fm(list(range(0, 70)) + A1 + U1, 800)) + [LIM])

LS = (257, 264, 265, 269, 273, 279, 284, 285)
def inflate_jobs(p, quick):
    x = ',p=%d' % p
    s = 100 if quick else 1500
    J = [('any%d' % n, 'any_stream', s, 'n=%d,nm=0' % n + x, []) for n in (0, 1, 2)]
    J += [('any%d-1' % n, 'any_stream', s, 'n=%d,type=1,nm=0' % n + x, []) for n in (3, 4, 5)]
    J += [('any6-0', 'any_stream', s, 'n=6,type=0,nm=%d' % (p == 24) + x, []), ('any7-0', 'any_stream', s, 'n=7,type=0,cap=3,nm=%d' % (p == 24) + x, ['inflated', 'refused'])]
    D = [(0, 1, 20, 257, 1), (0, 2, 20, 257, 1), (1, 2, 20, 286, 2), (1, 3, 300, 286, 2), (2, 1, 20, 257, 1), (3, 2, 20, 257, 1), (4, 1, 20, 257, 1), (5, 2, 20, 257, 1), (6, 1, 20, 257, 1), (7, 1, 20, 257, 1),
         (8, 2, 20, 286, 8), (9, 1, 20, 263, 1), (10, 1, 20, 260, 3)]
    if not quick: D += [(7, 2, 20, 257, 1), (8, 3, 40, 286, 8), (2, 2, 20, 257, 1), (6, 2, 20, 257, 1), (9, 2, 20, 263, 1), (10, 2, 20, 260, 3), (1, 4, 300, 286, 2), (0, 3, 40, 257, 1)]
    J += [('dyn%d-%d-%d' % d[:3], 'dynamic', s, 't=%d,n=%d,cap=%d,hlit=%d,hdist=%d' % d + x, []) for d in D]
    J += [('code2', 'dynamic_code', s, 'k=2,n=2' + x, [])]
    J += [('tail3', 'fixed_tail', s, 'lit=3,n=3,cap=40' + x, ['inflated', 'refused'])]
    for L in LS:
        J += [('len%d' % L, 'fixed_tail', s, 'lit=1,n=1,lsym=%d,cap=262' % L + x, []), ('dist%d' % L, 'fixed_tail', s, 'lit=4,n=3,lsym=%d,cap=262' % L + x, ['inflated', 'refused'])]
    J += [('far%d' % L, 'fixed_tail', s, 'pre=300,n=3,lsym=%d,cap=560' % L + x, ['inflated', 'refused']) for L in ((257, 273) if quick else LS)]
    J += [('far3000', 'fixed_tail', s, 'pre=3000,n=3,lsym=257,cap=3100' + x, []), ('far33000', 'fixed_tail', s, 'pre=33000,n=3,lsym=273,cap=33100' + x, [])]
    J += [('seq%s-%d' % q, 'blocks', s, 'seq=%s,n=%d,cap=%d,ff=%d' % (q[0], q[1], 12 if q[0] == '66504' else 3 if q[0] == '4474' else 16, q[0] in ('34', '45', '545', '3545')) + x, []) for q in
          [(a, 0) for a in ('14', '1', '34', '545', '74', '777', '48', '3545', '4114', '4474', '96421', '7474', '9996')] + [('1', 1), ('24', 0), ('45', 1), ('66504', 1), ('745', 2), ('6', 1)]]
    if not quick:
        J += [('seq%s-%d' % q, 'blocks', s, 'seq=%s,n=%d,cap=16,ff=1' % q + x, []) for q in [('242', 1), ('3737', 1), ('54545', 1), ('111', 1), ('79797', 2), ('5', 2)]]
        J += [('any8-0', 'any_stream', s, 'n=8,type=0,nm=%d' % (p == 24) + x, []), ('any6-1', 'any_stream', s, 'n=6,type=1,nm=0' + x, []), ('any7-1', 'any_stream', s, 'n=7,type=1,nm=0' + x, []), ('any3', 'any_stream', s, 'n=3,nm=0' + x, []),
              ('far40', 'fixed_tail', s, 'pre=40,n=4,cap=50' + x, []), ('far33000b', 'fixed_tail', s, 'pre=33000,n=3,lsym=257,cap=33100' + x, []), ('code3', 'dynamic_code', s, 'k=3,n=2' + x, [])]
        J += [('all%d' % L, 'fixed_tail', s, 'lit=4,n=3,lsym=%d,cap=262' % L + x, []) for L in range(257, 286) if L not in LS]
    return [dict(h='h_inflate.cpp', init=False, timeout=800 if quick else 10000, jobs=J)]
for pid, what in (('C24', 'inflate_raw() with exact-size source and destination blocks: any access outside them, signed overflow or a size above the capacity is an error'),
                  ('C25', 'inflate_raw() against an inflater written from RFC 1951 (spec::inflate)')):
    prop(pid, what,
         ('all streams of 0-2 bytes; fixed-code streams of 3-5 bytes, stored ones of 6 and 7; dynamic blocks with 11 shapes of code lengths (free runs, repeats, up to 8 distance codes) and 1-3 free bytes; every length code class followed by 3 free bytes, with 4 to 33000 bytes of output before it; 20 sequences of 1-5 blocks of all types with free lengths, check fields, padding, final marks and distances',
          'as quick with more free bytes, all length codes'), 'longer free streams; other combinations of code lengths',
         inflate_jobs(int(pid[1:]), True), inflate_jobs(int(pid[1:]), False))

FL = ['-include', V + '/harness/fault_pre.h']
FAULT = lambda jobs, **k: dict(h='h_fault.cpp', flags=FL, init=False, jobs=jobs, **k)
BIG = ',@opcap=40000000,@nodes=400000000'
def corrupt_jobs(s, quick):
    J = [('end%d' % o, 'corrupt', s, 'at=%d,bits=32,off=%d' % (224608 - (5 if o else 4), o) + BIG, ['corrupt']) for o in range(8)]
    J += [('head', 'corrupt', s, 'at=0,bits=8', ['corrupt']), ('mid', 'corrupt', s, 'at=150001,bits=16,off=3', ['corrupt']), ('late', 'corrupt', s, 'at=220000,bits=16,off=5,cp=1', ['corrupt'])]
    if not quick: J += [('w%d' % a, 'corrupt', s, 'at=%d,bits=32,off=%d' % (a, a % 8) + BIG, ['corrupt']) for a in (0, 1, 65535, 100003, 131072, 200000, 223000)]
    return J
def crc_jobs(s, ns, fixed):
    J = [('v%d' % n, 'crc_value', s, 'n=%d' % n, ['crc']) for n in ns] + [('f%d' % n, 'crc_value', s, 'n=3,fixed=%d' % n, ['crc']) for n in fixed]
    return J + [('b%d-%d' % x, 'crc_burst', s, 'off=%d,after=%d' % x + BIG, ['burst']) for x in [(o, a) for o in range(8) for a in (0, 3)]]
prop('C26', 'crc32_ieee() against division by the CRC-32 polynomial; its difference under bursts from every register state; set-up with a changed payload or another size reported by the decompressor',
     ('every byte string of length 0-32, 48, 64, three arbitrary bytes behind 255, 256, 5000 and 70000 fixed ones; every 32-bit burst at every bit offset after every register state, followed by 0 and 3 arbitrary bytes; set-up: every burst of 32 bits at the end of the payload, of 8 and 16 bits at its start, middle and near the end; every other reported size (64 bits)',
      'as quick, 32-bit bursts at seven more places'), 'bursts elsewhere in the payload (they follow from the property of the checksum proved for every register state); changes wider than 32 bits',
     [dict(h='h_crc.cpp', init=False, jobs=crc_jobs(100, list(range(0, 33)) + [48, 64], (255, 256, 5000, 70000))), FAULT(corrupt_jobs(200, True) + [('size', 'other_size', 60, '', ['size'])])],
     [dict(h='h_crc.cpp', init=False, jobs=crc_jobs(600, range(0, 130), (255, 256, 4095, 5000, 65535, 65536, 70000, 224605))), FAULT(corrupt_jobs(3000, False) + [('size', 'other_size', 60, '', ['size'])], timeout=6000)])
def fault_jobs(s, quick):
    J = []
    for f in (1, 2, 3, 4):
        for o in (0, 1, 2, 3, 4):
            for once in ((0, 1) if f < 3 or not quick else (0,)):
                J.append(('p%d-%d-%d' % (f, o, once), 'op_codepoint', s, 'fault=%d,op=%d,once=%d%s' % (f, o, once, ',at=224600' if f == 4 else ''), ['done']))
        for o in (0, 1):
            for pre in (0, 1, 2, 3):
                J.append(('d%d-%d-%d' % (f, o, pre), 'op_domain', s, 'fault=%d,op=%d,once=%d,pre=%d,n=%d%s' % (f, o, pre % 2, pre, (4 if f == 1 and not pre else 3) if quick else 5 if f == 1 else 4, ',at=224000' if f == 4 else ''), ['other'] if o == 0 else []))
        J.append(('t%d' % f, 'op_tableless', s, 'fault=%d,at=224600' % f, ['done']))
    return J
prop('C22', 'every public operation on arbitrary code points and bytes after the set-up allocation fails, the decompressor refuses, returns another size or changed data; each operation triggers the set-up itself and is called twice, with the fault lasting or passing',
     ('one arbitrary 32-bit code point (two equal ones for labels); 3-4 arbitrary bytes alone and after fixed labels, xn-- included', 'as quick with 4-5 bytes'), 'longer inputs; failures of other allocations',
     [FAULT(fault_jobs(60, True))], [FAULT(fault_jobs(600, False), timeout=6000)])

BE = lambda h, jobs, **k: dict(h=h, env={'BE': '1'}, native=False, jobs=jobs, **k)
ENDIAN = lambda s: dict(h='h_endian.cpp', init=False, env={'BE': '1'}, nflags=['-include', V + '/harness/endian_pre.h'], jobs=[
    ('all', 'convert', s, 'at=0,len=224608', ['converted']), ('part', 'convert', s, 'at=65536,len=4096', ['converted']), ('setup', 'setup', s, '', ['setup'])])
prop('C28', 'compiled for s390x (big-endian, 64-bit): conversion of a payload of 224608 arbitrary bytes against reading each element as packed; the tables after set-up; map, normalize, is_label_valid, valid_name_code_point, to_ascii, to_unicode on the big-endian build against the same references as on this machine',
     ('every payload content, every element of all 18 tables; every single 32-bit value through map, normalize, is_label_valid and valid_name_code_point; pairs through map and is_label_valid; templates 3, 20, 54 of the pipeline', 'as quick, more pairs and templates'),
     'other big-endian targets; the byte order of other targets than s390x',
     [ENDIAN(60), BE('h_map.cpp', [('m1', 'map_seq', 60, 'n=1', ['mapped']), ('m2', 'map_seq', 120, 'n=2', ['mapped'])]), BE('h_norm.cpp', [('n1', 'norm_nfc', 60, 'n=1,nm=1', ['norm'])]),
      BE('h_label.cpp', [lab(10, 1, 60), lab(12, 1, 60), lab(12, 2, 60), lab(11, 2, 60, 'zwj=1')]), BE('h_ident.cpp', [('one', 'ident', 60, '', ['accept', 'refuse'])]),
      BE('h_pipe.cpp', tp('ascii_spec', [3, 20], 100) + tp('unicode_spec', [54], 100)), BE('h_ascii.cpp', [('d%d' % n, 'ascii_domain', 60, 'n=%d,off=%d' % (n, n % 8), ['converted']) for n in (1, 7, 8, 9, 15, 17, 33)], init=False)],
     [ENDIAN(600), BE('h_map.cpp', [('m1', 'map_seq', 60, 'n=1', ['mapped']), ('m2', 'map_seq', 120, 'n=2', ['mapped'])]), BE('h_norm.cpp', NORM),
      BE('h_label.cpp', [lab(10, 1, 60), lab(10, 2, 60), lab(12, 1, 60), lab(12, 2, 60), lab(12, 3, 300), lab(11, 2, 60, 'zwj=1'), lab(11, 3, 300, 'zwnj=1')]), BE('h_ident.cpp', [('one', 'ident', 60, '', ['accept', 'refuse'])]),
      BE('h_pipe.cpp', tp('ascii_spec', list(range(50)), 800) + tp('unicode_spec', list(range(50, 70)), 800), timeout=6000), BE('h_ascii.cpp', ascii_jobs(list(range(0, 34))), init=False)],
     assumptions=['the C++ headers of this machine with word size and byte order replaced stand for those of an s390x system'])

# harnesses of other properties of which only the obligations on undefined behaviour count here
UBO = lambda jobs, h, **k: dict(h=h, init=False, ub=True, jobs=jobs, **k)
UB_T = [0, 3, 5, 10, 11, 13, 20, 22, 24, 27, 30, 35, 39, 40, 44, 50, 54, 58, 60, 62, 70, 78]
def ub_jobs(s, quick):
    J = [('b%d-%d' % (o, n), 'ub_bytes', s, 'n=%d,op=%d' % (n, o), ['end']) for o in range(6) for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 5))]
    J += [('d%d-%d' % (t, o), 'ub_domain', s, 't=%d,op=%d' % (t, o), ['end']) for t in (UB_T if quick else range(80)) for o in (0, 1, 3)]
    J += [('p%d' % o, 'ub_points', s, 'n=2,op=%d' % o, ['end']) for o in (0, 1, 2)] + [('p3', 'ub_points', s, 'n=2,op=3,r64=1', ['end']), ('p4', 'ub_points', s, 'n=1,op=4', ['end']), ('p5', 'ub_points', s, 'n=4,op=5', ['end']), ('p6', 'ub_points', s, 'n=2,op=6', ['end'])]
    J += [('p%d-0' % o, 'ub_points', s, 'n=0,op=%d' % o, ['end']) for o in range(7)]
    J += [('l%d-%d-%d' % (n, a, o), 'ub_long', s, 'n=%d,at=%d,k=%d,op=%d' % (n, a, k, o), ['end']) for n, a, k, o in
          [(40, 14, 2, 0), (40, 14, 3, 4), (40, 6, 3, 5), (70, 61, 2, 0), (255, 252, 2, 0), (33, 30, 2, 2), (17, 14, 3, 4), (9, 6, 3, 4), (64, 61, 3, 5), (16385, 9, 1, 0)] + ([] if quick else
          [(n, a, 3, o) for n in (8, 9, 16, 17, 32, 33, 63, 64, 65, 128, 256, 257) for a in (0, n // 2, n - 3) for o in (0, 1, 3, 4, 5)])]
    return J
prop('C27', 'every public operation on arbitrary input held in blocks of exactly its size; every memory access, initialisation of scalars, signed overflow, shift, division, and thrown exception is an obligation on every path',
     ('every byte string of up to 3 bytes through to_ascii, to_unicode, contains_forbidden_domain_code_point, verify_punycode, punycode_to_utf32, utf8_to_utf32, ascii_map; every sequence of two 32-bit values through map, normalize, is_already_nfc, is_label_valid, valid_name_code_point (four through utf32_to_utf8); the inputs of C05 and C06 through the Punycode functions; %d templates of longer text; runs of 9-16385 bytes with arbitrary ones inside; the same obligations hold in every other check' % len(UB_T),
      'byte strings to 5, all 80 templates, more runs'), 'longer arbitrary input, undefined behaviour clang resolves before its IR exists, uninitialised padding; memory exhaustion',
     [dict(h='h_ub.cpp', jobs=ub_jobs(100, True)), UBO(pj('puny_verify', small + shapes, 60), 'h_puny.cpp'), UBO(pj('puny_encode', encs, 60), 'h_puny.cpp')],
     [dict(h='h_ub.cpp', jobs=ub_jobs(1500, False), timeout=10000), UBO(pj('puny_verify', small + shapes + deep, 800), 'h_puny.cpp', timeout=6000)])

def single_jobs(s, quick):
    J = [('b%d' % o, 'single_bytes', s, 'n=%d,op=%d' % (n, o), ['end']) for o, n in ((0, 3), (1, 4), (2, 2), (3, 3), (4, 4), (5, 20))]
    J += [('c%d' % o, 'single_bytes', s, 'n=%d,op=%d' % (n, o), ['end']) for o, n in ((0, 0), (1, 0), (3, 0), (4, 5), (5, 7))] + [('b8', 'single_bytes', s, 'n=20,op=4,pre=17', ['end'])]
    J += [('p%d' % o, 'single_points', s, 'n=1,op=%d' % o, ['end']) for o in range(7)] + [('q%d' % o, 'single_points', s, 'n=2,r64=1,op=%d' % o, ['end']) for o in (3, 6)] + [('q0', 'single_points', s, 'n=2,op=0', ['end'])]
    J += [('d%d-%d' % (t, o), 'single_domain', s, 't=%d,op=%d' % (t, o), ['end']) for t in ([0, 3, 10, 13, 20, 24, 27, 35, 39, 40, 44, 50, 54, 58, 60, 70, 78] if quick else range(80)) for o in (0, 1)]
    if not quick: J += [('q%d' % o, 'single_points', s, 'n=2,op=%d' % o, ['end']) for o in (1, 2)] + [('e%d' % o, 'single_bytes', s, 'n=%d,op=%d' % (n, o), ['end']) for o, n in ((0, 4), (1, 6), (2, 3), (3, 6), (4, 8))]
    return J
def single_groups(tier, R):
    """generates the distribution from /repo's current tree; one that cannot be compiled is a violation of its own"""
    d = R.tmp + '/single'
    os.makedirs(d)
    env = dict(os.environ, AMALGAMATE_SOURCE_PATH='/repo/src', AMALGAMATE_INCLUDE_PATH='/repo/include', AMALGAMATE_OUTPUT_PATH=d, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '/repo/singleheader/amalgamate.py'], cwd='/tmp', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    x = r.returncode
    comp = lambda *a: subprocess.run(['clang++-18', '-std=c++20', '-fsyntax-only', '-Wno-everything', *a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not x and not comp('-I/repo/include', '-I/repo/src', '/repo/src/idna.cpp').returncode:
        with open(d + '/use.cpp', 'w') as f: f.write('#include "ada_idna.cpp"\n#include "ada_idna.h"\nint main() { return (int)ada::idna::to_ascii(std::string_view("a")).size(); }\n')
        for a in (['-I' + d, '-Dada=adas', d + '/ada_idna.cpp'], ['-I' + d, '-Dada=adas', V + '/harness/single_wrap.cpp'], ['-I' + d, d + '/use.cpp']):
            r = comp(*a)
            if r.returncode: x = r.returncode; break
    if x:
        os.makedirs(V + '/build/replays', exist_ok=True)
        p = V + '/build/replays/C29-build.txt'
        with open(p, 'w') as f: f.write('# AMALGAMATE_OUTPUT_PATH=DIR python3 /repo/singleheader/amalgamate.py; clang++-18 -std=c++20 -fsyntax-only -IDIR DIR/ada_idna.cpp\n' + r.stdout[-3000:])
        R.viol.append(dict(kind='build', msg='the single-file distribution does not compile', replay=p))
        print('VIOLATION property=C29 replay=%s\n  the single-file distribution does not compile' % p)
        return []
    return [dict(h='h_single.cpp', env={'EXTRA_CPP': d + '/ada_idna.cpp ' + V + '/harness/single_wrap.cpp', 'EXTRA_FLAGS': '-I%s -Dada=adas' % d}, jobs=single_jobs(100 if tier == 'quick' else 1500, tier == 'quick'), timeout=800 if tier == 'quick' else 10000)]
prop('C29', 'the distribution generated from the current sources, its namespace renamed, and the library are linked into one program and every public operation of both is called with the same symbolic input; a distribution that does not compile is reported as such',
     ('every string of 3 bytes (to_ascii, punycode_to_utf32, ...), 4 (to_unicode, utf8_to_utf32), 20 (ascii_map); every 32-bit value through the operations on code points, pairs through map, is_label_valid and valid_name_code_point; 17 templates of longer text',
      'strings of 4-8 bytes, pairs through normalize and is_already_nfc, all 80 templates'), 'longer arbitrary input; the demonstration program; the renaming itself (-Dada=adas)', single_groups, single_groups)
PROPS['C29']['groups'] = single_groups

prop('C23', 'the first call of one thread is executed symbolically with every value an atomic read may return left free (set-up failing by allocation or payload included); for every choice of one such path per thread z3 decides whether the release/acquire axioms of the C++ memory model admit an execution with a data race, two set-ups, an unfinished set-up or a failure without a fault',
     ('two threads, each calling one of map, is_already_nfc, normalize, is_label_valid, valid_name_code_point (15 pairs); three threads with the same operation (3 of them); at most 4 atomic operations per thread, so up to 2 rounds of waiting', 'also to_ascii and to_unicode, every triple of the five operations, 6 atomic operations per thread'),
     'more threads, longer waiting (a further round re-reads the state without side effects), sequentially consistent fences, the timeout of the waiting loop; the arguments are fixed', [], [],
     threads={'quick': ((0, 1, 2, 3, 4), 4, 100), 'thorough': ((0, 1, 2, 3, 4, 5, 6), 6, 3000)},
     technique='symbolic execution of the compiled LLVM IR per thread, executions of the C++ memory model as SMT constraints decided by z3, counterexamples replayed under ThreadSanitizer',
     stubs=STUBS.replace('; single-threaded atomics', '; atomic reads return any value'), assumptions=['clang lowers the atomics of libstdc++ faithfully', 'memory allocated by a thread is private until its address is published', 'a value read from an atomic is constrained independently of other reads of the same path'])
