#!/usr/bin/env python3
"""Writes harness/puny_shapes.inc: Punycode strings with free places, built from deltas whose size decides
something (bias steps, code point limits, the 31-bit limit)."""
import os
def adapt(d, n, first):
    d = d // 700 if first else d // 2
    d += d // n
    k = 0
    while d > 455: d //= 35; k += 36
    return k + 36 * d // (d + 38)
def vli(q, bias):
    o, k = '', 36
    D = lambda x: chr(x + 97) if x < 26 else chr(x + 22)
    while True:
        t = 1 if k <= bias else 26 if k >= bias + 26 else k - bias
        if q < t: return o + D(q)
        o += D(t + (q - t) % (36 - t)); q = (q - t) // (36 - t); k += 36
def chain(basics, deltas):
    """deltas: numbers, or (number, free) with the first `free` digits free"""
    s, bias, n, first = (basics + '-' if basics else ''), 72, len(basics), True
    for x in deltas:
        d, free = x if isinstance(x, tuple) else (x, 0)
        v = vli(d, bias)
        s += '#' * min(free, len(v)) + v[free:]
        n += 1
        bias = adapt(d, n, first); first = False
    return s
M = 0x7fffffff
S = ['****-', '****-?', 'xn--?', 'xn---??', 'xn---???', 'xn----??', 'n---???', 'xn-??', 'xn-???', 'x---???', 'X*---', 'xn--', 'xn--***', '*xn---??']
S += [chain('', [(M, 3)]), chain('', [(M, 2)]), chain('a', [(M, 3)]), chain('abc', [(M - 5, 3)]), chain('', [(0x7fffff7f, 2), 5]), chain('', [M - 0x80, (3, 2)])]
S += [chain('', [0x40000000, (M - 1, 3)]), chain('', [0x40000000, (0x7ffffe00, 2)]), chain('a', [0x20000000, 5000, (M - 40, 3)])]
S += [chain('', [0x10ff7f, (0, 1)]), chain('', [(0x10ff7f, 3)]), chain('a', [(2 * 0x10ff80, 3)]), chain('ab', [3 * 0x5000, (3 * 0x10ff80, 3)]), chain('', [(0xd77f, 3)])]
S += [chain('ab', [100]) + '###' + chain('', [30000])[:4], chain('ab', [100, (728, 3), 30000]), chain('ab', [5000, (728, 2), 200]), chain('abc', [(700 * 455, 3), 5000]), chain('', [(700 * 15, 3), 3000, 40])]
S += ['a' * 20 + '-###', 'a' * 63 + '-??', 'a' * 70 + '-###', 'a' * 130 + '-##b', 'ab' * 128 + '-##', 'a' * 59 + '-##b']
S += ['***' + 'a' * 30 + '-a7a', '?' + 'b' * 62 + '-9a', 'a' * 30 + '*' + 'a' * 30 + '-9a', chain('ab', [500] * 6) + '##', chain('', [20000, 3, 4, 5, 6, 7]) + '##', chain('ab', [50, 60, (70, 2), 80, 90])]
S += ['b????', 'abc-?--?', 'a-?-?', '-???', '--??', 'a--??', '**-a']
here = os.path.dirname(os.path.abspath(__file__))
if __name__ == '__main__':
    open(os.path.join(here, '..', 'harness', 'puny_shapes.inc'), 'w').write(''.join('"%s",\n' % x for x in S))
    print(len(S), 'shapes')
