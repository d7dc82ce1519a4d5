#!/usr/bin/env python3
"""C23: threads.py TRACES.json TIER -> JSON on stdout.

TRACES holds, per operation, the event sequences the symbolic executor recorded for one
thread's first call with every value an atomic read may return left free.  For every
choice of one path per thread the release/acquire consistency axioms of the C++ memory
model are given to z3 together with the negation of the property."""
import itertools, json, multiprocessing, sys, time
import z3
REL, ACQ = (5, 6, 7), (4, 6, 7)

def load(f):
    ops = {}
    for line in open(f):
        d = json.loads(line)
        if 'events' not in d: continue
        names, floor = d.get('names', {}), d['heap_floor']
        init = {k: v for k, v in d['initial'].items()}
        paths = []
        base = {}
        for t in d['events']:
            for e in t['ev']:
                if e[0] == 10 and e[4] and e[4] < floor: base.setdefault(e[1], e[4])
        for t in d['events']:
            if any(v == [] for v in t['vals'].values()): continue
            alias = {}
            for e in t['ev']:
                if e[0] == 11 and e[4] >= floor and e[1] in base: alias[e[4]] = base[e[1]]
            atoms, segs, res, fault, cut, writer = [], [set()], None, None, False, False
            for e in t['ev']:
                k = e[0]
                if k == 100:
                    if e[1] == 1: res = e[2]
                    else: fault = e[2]
                elif k == 99: cut = True
                elif k >= 10:
                    slot = alias.get(e[1], e[1])
                    if names.get(str(slot), '').startswith('_ZL5fault'): continue
                    if slot >= floor: continue          # memory of this thread alone
                    if k == 11 and e[4] and slot < 131072: writer = True
                    segs[-1].add((k - 10, slot, e[2], e[3]))
                else:
                    if k == 1: a = dict(kind='W', loc=str(e[1]), order=e[3], val=e[4], vals=None)
                    else:
                        vals = tuple(t['vals'][e[2]]) if len(t['vals'][e[2]]) < 256 else None
                        o = e[3]
                        if k == 0: a = dict(kind='R', loc=str(e[1]), order=o & 255, val=None, vals=vals)
                        elif k == 2:
                            ok = o >> 8 & 1
                            a = dict(kind='U' if ok else 'R', loc=str(e[1]), order=o & 255 if ok else o >> 16 & 255, val=e[4] if ok else None, vals=vals)
                        else: a = dict(kind='U', loc=str(e[1]), order=o & 255, val=e[4], vals=vals)
                    if isinstance(a['val'], str): raise SystemExit('value of an atomic write is not a constant')
                    atoms.append(a)
                    segs.append(set())
            if res is None: cut = True
            p = dict(atoms=atoms, segs=[sorted(s) for s in segs], res=res, fault=fault if any(a['kind'] == 'U' for a in atoms) else 0, cut=cut, writer=writer)
            if p not in paths: paths.append(p)
        ops[d['job']] = dict(paths=paths, init=init, names=names)
    return ops

def conflict(a, b):
    return a[1] == b[1] and (a[0] or b[0]) and a[2] < b[3] and b[2] < a[3]

def solve(job):
    """one choice of paths; returns (kind, detail) or None"""
    tag, paths, init, accepted, nofail = job
    t0 = time.time()
    locs = sorted({a['loc'] for p in paths for a in p['atoms']})
    ev = [(None, -1, dict(kind='W', loc=l, order=0, val=init.get(l), vals=None)) for l in locs]
    idx = {}
    for t, p in enumerate(paths):
        for i, a in enumerate(p['atoms']):
            idx[t, i] = len(ev)
            ev.append((t, i, a))
    n = len(ev)
    W = [i for i in range(n) if ev[i][2]['kind'] in 'WU']
    Rd = [i for i in range(n) if ev[i][2]['kind'] in 'RU']
    S = z3.Solver()
    S.set('timeout', 60000)
    mo = {w: z3.Int('mo%d' % w) for w in W}
    for w in W:
        if ev[w][0] is None: S.add(mo[w] == 0)
        else: S.add(mo[w] > 0)
    for a, b in itertools.combinations(W, 2):
        if ev[a][2]['loc'] == ev[b][2]['loc']: S.add(mo[a] != mo[b])
    rf = {}
    for r in Rd:
        c = []
        for w in W:
            if w == r or ev[w][2]['loc'] != ev[r][2]['loc']: continue
            v = ev[r][2]['vals']
            if v is not None and ev[w][2]['val'] not in v: continue
            if ev[w][0] == ev[r][0] and ev[w][1] > ev[r][1]: continue
            rf[w, r] = z3.Bool('rf%d_%d' % (w, r))
            c.append(rf[w, r])
        if not c: return None, 0, time.time() - t0
        S.add(z3.PbEq([(x, 1) for x in c], 1))
    # release sequences: rs[w][x]: x is w or a chain of read-modify-writes after w
    def rs(w, x, depth=0):
        if w == x: return z3.BoolVal(True)
        if ev[x][2]['kind'] != 'U' or depth > len(W): return z3.BoolVal(False)
        return z3.Or([z3.And(rf[y, x], rs(w, y, depth + 1)) for y in W if (y, x) in rf] or [False])
    hb = [[z3.BoolVal(False)] * n for _ in range(n)]
    for a in range(n):
        for b in range(n):
            if ev[a][0] is None and ev[b][0] is not None: hb[a][b] = z3.BoolVal(True)
            elif ev[a][0] is not None and ev[a][0] == ev[b][0] and ev[a][1] < ev[b][1]: hb[a][b] = z3.BoolVal(True)
            elif a != b and ev[a][0] is not None and ev[b][0] is not None and ev[a][0] != ev[b][0] and ev[a][2]['kind'] in 'WU' and ev[b][2]['kind'] in 'RU' and ev[a][2]['order'] in REL and ev[b][2]['order'] in ACQ:
                c = [z3.And(rf[x, b], rs(a, x)) for x in W if (x, b) in rf]
                hb[a][b] = z3.Or(c) if c else z3.BoolVal(False)
    k = 1
    while k < n:
        k *= 2
        nx = [[None] * n for _ in range(n)]
        for a in range(n):
            for b in range(n):
                if z3.is_true(hb[a][b]): nx[a][b] = hb[a][b]; continue
                c = [hb[a][b]] + [z3.And(hb[a][m], hb[m][b]) for m in range(n) if not z3.is_false(hb[a][m]) and not z3.is_false(hb[m][b])]
                c = [x for x in c if not z3.is_false(x)]
                v = z3.Bool('hb%d_%d_%d' % (k, a, b))
                if not c: nx[a][b] = z3.BoolVal(False)
                else: S.add(v == z3.Or(c)); nx[a][b] = v
        hb = nx
    for a in range(n): S.add(z3.Not(hb[a][a]))
    # coherence
    for a in range(n):
        for b in range(n):
            if a == b or ev[a][2]['loc'] != ev[b][2]['loc'] or z3.is_false(hb[a][b]): continue
            wa = [(a, z3.BoolVal(True))] if a in mo else [(w, rf[w, a]) for w in W if (w, a) in rf]
            wb = [(b, z3.BoolVal(True))] if b in mo else [(w, rf[w, b]) for w in W if (w, b) in rf]
            for x, cx in wa:
                for y, cy in wb:
                    if x != y: S.add(z3.Implies(z3.And(hb[a][b], cx, cy), mo[x] < mo[y]))
                    elif a in mo and b in mo: pass
            if a in mo and b not in mo: pass
            if a not in mo and b in mo:      # read before write: may not read it
                for w in W:
                    if (w, a) in rf: S.add(z3.Implies(z3.And(hb[a][b], rf[w, a]), mo[w] < mo[b]))
    for r in Rd:                              # a read-modify-write reads its predecessor
        if ev[r][2]['kind'] == 'U':
            for w in W:
                if (w, r) in rf:
                    S.add(z3.Implies(rf[w, r], mo[w] < mo[r]))
                    for x in W:
                        if x != w and x != r and ev[x][2]['loc'] == ev[r][2]['loc']:
                            S.add(z3.Implies(rf[w, r], z3.Not(z3.And(mo[w] < mo[x], mo[x] < mo[r]))))
    clock = [z3.Int('t%d' % i) for i in range(n)]   # no values out of thin air
    for (w, r), b in rf.items(): S.add(z3.Implies(b, clock[w] < clock[r]))
    for t, p in enumerate(paths):
        for i in range(len(p['atoms']) - 1): S.add(clock[idx[t, i]] < clock[idx[t, i + 1]])
    bad = []
    H = lambda a, b: hb[a][b] if a is not None and b is not None else z3.BoolVal(False)
    g = lambda t, i: idx.get((t, i))
    for i, j in itertools.combinations(range(len(paths)), 2):
        for p, sp in enumerate(paths[i]['segs']):
            for q, sq in enumerate(paths[j]['segs']):
                hit = [(x, y) for x in sp for y in sq if conflict(x, y)]
                if hit:
                    b = z3.Bool('race_%d_%d_%d_%d' % (i, p, j, q))
                    S.add(b == z3.And(z3.Not(H(g(i, p), g(j, q - 1))), z3.Not(H(g(j, q), g(i, p - 1)))))
                    bad.append((b, 'data race on %s' % hit[0][0][1]))
    if sum(p['writer'] for p in paths) > 1: bad.append((z3.Bool('twice'), 'tables set up by two threads'))
    if nofail and any(p['res'] == 0 for p in paths): bad.append((z3.Bool('failed'), 'an operation fails although nothing failed'))
    if not any(p['cut'] and any(a['kind'] in 'WU' for a in p['atoms']) for p in paths):
        for w in W:
            if ev[w][2]['loc'] in accepted and ev[w][2]['val'] not in accepted[ev[w][2]['loc']]:
                b = z3.Bool('stuck%d' % w)
                S.add(b == z3.And([mo[x] <= mo[w] for x in W if ev[x][2]['loc'] == ev[w][2]['loc']]))
                bad.append((b, 'set-up left unfinished (state %s)' % ev[w][2]['val']))
    if not bad: return None, 0, time.time() - t0
    S.add(z3.Or([b for b, _ in bad]))
    r = S.check()
    if r == z3.unsat: return ('unsat', ''), 1, time.time() - t0
    if r != z3.sat: return ('unknown', S.reason_unknown()), 1, time.time() - t0
    M = S.model()
    why = [d for b, d in bad if z3.is_true(M.eval(b, model_completion=True))]
    return ('sat', '; '.join(why[:3])), 1, time.time() - t0

def describe(tag, paths): return dict(ops=tag, paths=[dict(atoms=[(a['kind'], a['order'], a['val'], a['vals']) for a in p['atoms']], result=p['res'], fault=p['fault']) for p in paths])

def main():
    ops = load(sys.argv[1])
    tier = sys.argv[2]
    names = sorted(ops)
    init = {}
    allnames = {}
    for o in ops.values(): init.update(o['init']); allnames.update(o['names'])
    acc = {}
    for o in ops.values():
        for p in o['paths']:
            if not p['cut'] and p['atoms'] and p['atoms'][0]['kind'] == 'R' and not any(a['kind'] == 'U' for a in p['atoms']) and all(a['vals'] == p['atoms'][0]['vals'] for a in p['atoms']) and p['atoms'][0]['vals']:
                acc.setdefault(p['atoms'][0]['loc'], set()).update(p['atoms'][0]['vals'])
    for l in acc: acc[l].add(init.get(l))
    groups = [c for c in itertools.combinations_with_replacement(names, 2)]
    groups += [(a, a, a) for a in names[:3 if tier == 'quick' else 9]]
    if tier != 'quick': groups = [c for c in itertools.combinations_with_replacement(names, 2)] + [c for c in itertools.combinations_with_replacement(names[:5], 3)]
    jobs, seen = [], set()
    for g in groups:
        for combo in itertools.product(*[range(len(ops[x]['paths'])) for x in g]):
            if len(set(g)) == 1 and list(combo) != sorted(combo): continue
            ps = [ops[x]['paths'][c] for x, c in zip(g, combo)]
            # every value read must be written by someone
            avail = {}
            for l, v in init.items(): avail.setdefault(l, set()).add(v)
            for p in ps:
                for a in p['atoms']:
                    if a['kind'] in 'WU': avail.setdefault(a['loc'], set()).add(a['val'])
            if any(a['kind'] in 'RU' and a['vals'] is not None and not (set(a['vals']) & avail.get(a['loc'], set())) for p in ps for a in p['atoms']): continue
            jobs.append(((g, combo), ps, init, acc, not any(p['fault'] for p in ps)))
    out = dict(groups=len(groups), jobs=len(jobs), paths={o: len(ops[o]['paths']) for o in names}, queries=0, unsat=0, unknown=0, trivial=0, solver_seconds=0.0, violations=[], accepted={k: sorted(v) for k, v in acc.items()}, atomics={allnames.get(str(int(l) >> 24), l): v for l, v in init.items()})
    with multiprocessing.Pool(8) as pool:
        for (res, q, sec), j in zip(pool.imap(solve, jobs, chunksize=4), jobs):
            out['queries'] += q
            out['solver_seconds'] += sec
            if res is None: out['trivial'] += 1
            elif res[0] == 'unsat': out['unsat'] += 1
            elif res[0] == 'unknown': out['unknown'] += 1
            else:
                why = res[1]
                for s, nm in allnames.items(): why = why.replace('race on %s' % s + (';' if ';' in why else ''), 'race on ' + nm) if why.endswith('race on %s' % s) or ('race on %s;' % s) in why else why
                if sum(x['why'].split(' on ')[0] == why.split(' on ')[0] for x in out['violations']) < 6: out['violations'].append(dict(describe(j[0][0], j[1]), why=why))
                if len(out['violations']) > 40: break
    json.dump(out, sys.stdout)
if __name__ == '__main__': main()
