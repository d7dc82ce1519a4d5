#!/usr/bin/env python3
"""Writes harness/templates2.inc: domain templates 80 and up (language: see harness/h_pipe.cpp)."""
import os
L1, MK, AR, HE, AD, PU, CJ, DE, HA, RI, CP, FW, A2, GR = [chr(16 + i) for i in range(14)]
ANY2, ANY3, ANY4, D = '\3', '\4', '\5', '\7'
ace = lambda s: 'xn--\x0e' + s + '\x0f'
def run(n, c): return '\x0b' + chr(n) + c
E = 'é'
T = [
 # 80-: xn-- labels whose decoded form is free
 ace('q' + MK + MK) + '.' + E, E + '.' + ace(L1), ace(ANY3) + '.' + E, ace(ANY4) + '.' + E, ace(AR + AD) + '.' + E, ace('a' + HE) + '.' + E, ace('क' + DE + '‍' + 'क') + '.' + E, ace(AR + '‌' + AR) + '.' + E,
 ace('e' + MK + 'a') + '.' + E, ace('xn--' + L1) + '.' + E, ace(MK) + '.' + E, ace(HA + 'ᆨ') + '.' + E, ace(HE + '1' + AD) + '.' + E, ace(ANY2) + '.' + E,
 # 94-: many and long labels
 run(70, 'a') + L1, run(60, '一') + CJ, 'a.b.c.d.e.f.g.' + L1 + '.i..j', run(100, 'a') + '.' + L1, ace(run(30, '一') + CJ) + '.' + E, E + run(70, '-') + L1, '-.' + L1 + '.-a.a-.--.ab--cd', '_ %!' + L1 + '.@/',
 'A' + L1 + 'B.XN--\x0e' + L1 + '\x0f.C', 'x\u00adn--\x0e' + L1 + '\x0f', 'xｎ－-\x0e' + L1 + '\x0f', '\u00ad.' + L1, run(30, L1[0:0] + 'é') + MK, run(64, 'é') + '.' + ANY2, L1 + '.' + run(64, 'ü'), run(120, 'a') + '.' + run(120, 'b') + '.' + ANY3,
 # 110-: to_unicode
 ace(ANY2), ace(ANY3), ace(ANY4), ace('q' + MK + MK) + '.' + 'a', 'A.' + ace(L1) + '.B', ace('e' + MK), ace(AR + AD), ace('a' + HE), ace(AR + '‌' + AR), ace('क' + DE + '‍' + 'क'), ace(run(30, '一') + CJ), ace(run(70, 'a') + L1), ace(L1) + '.' + ace(MK) + '.' + ace(L1),
 run(70, 'a') + '.' + ace(L1), 'XN--\x0e' + L1 + '\x0f.' + ace(L1), '\1' + ace(L1), ace(L1) + '\1', '\1.' + ace(L1), ace('xn--' + L1), ace(HA + 'ᆨ'), ace('A' + L1), ace(L1 + '.a'), '.' + ace(L1) + '..', run(60, '.') + ace(L1), ace(MK), ace(CJ + run(20, '一') + CJ),
 # 136-
 ace(ANY2 + ANY2), ace(ANY3 + 'a'), ace(L1 + MK) + '.' + L1, ace(AR + MK + AD), ace(HE + '-' + HE) + '.' + E, ace(GR + MK), GR + MK + GR, ace('ß' + GR) + '.' + L1, ace(ANY3 + MK) + '.' + E, ANY3 + MK, CP + FW + CP + FW, 'a' + PU + 'b' + PU + L1, L1 + run(120, 'a') + run(120, 'b') + '.' + L1 + run(30, '.') + L1,
 # 149-: contexts
 'x', 'n--tda.é', 'xn-', '-tda.é', run(70, 'a'), run(60, '一'), E + '.a', 'e', 'xn--', 'tda.é', 'क्', 'ا', '.']
def q(s): return '"' + ''.join('\\%03o' % b if b < 32 or b >= 127 or b in (34, 92, 63) else chr(b) for b in s.encode()) + '",\n'
if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    open(os.path.join(here, '..', 'harness', 'templates2.inc'), 'w').write(''.join(map(q, T)))
    for i, t in enumerate(T): print(80 + i, repr(t)[:70])
