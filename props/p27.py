"""P27: changes of the system clock. A model of each job: it runs at the first moment the clock shows its planned time, once, and is then planned anew from the clock."""
from common import *
QUICK = 2500
U = 1000000
MIN = ['ops', 'jobs']

def gen(rng, i, tier):
    sc = new_sc(rng, 400, fs=rng.choice([1, 5, 20]), save=rng.choice([None, 60, 600]))
    end = rng.choice([1800, 7200, 7200, 40000, 3 * 86400])
    J = []
    for j in range(1, 1 + rng.choice([1, 2, 4, 6])):
        k = rng.choice(['td', 'td', 'td', 'up', 'up', 'hourly', 'daily'])
        x = dict(j=j, k=k, u=rng.choice(['alice', 'alice', 'bob', 'root']))
        if k == 'td':
            iv = rng.choice([1, 2, 5, 10, 15, 30]) if end <= 40000 else rng.choice([10, 15, 30, 60])
            x['m'] = sorted(range(rng.randint(0, iv - 1), 60, iv)) if iv < 60 else [rng.randint(0, 59)]
            x['h'] = sorted(rng.sample(range(24), rng.randint(1, 12))) if rng.random() < .3 else list(range(24))
            x['d'] = list(range(1, 32)) if rng.random() < .8 else sorted(rng.sample(range(1, 32), 10))
        elif k == 'up': x['Q'] = rng.choice([40, 61, 90, 300, 1000, 3600, 5000]) if end <= 40000 else rng.choice([3600, 7000, 30000]); x['F'] = rng.choice([None, None, 0, 5, 30, 500])
        elif k == 'hourly': a = rng.randint(0, 50); x['a'] = a; x['b'] = rng.randint(a, 59)
        else: a = rng.randint(0, 20); x['a'] = a; x['b'] = rng.randint(a, 23)
        J.append(x)
    sc['jobs'] = J; t = sc['fs'] + 5
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        t += rng.choice([rng.uniform(.001, 3), rng.uniform(10, 200), end / rng.uniform(3, 12), rng.uniform(0, 70)])
        if t > end: break
        d = rng.choice([.001, .3, 1, 2, 5, 6, 30, 59, 60, 61, 90, 600, 3599, 3600, 3601, 7200, 86400, 40 * 86400, 400 * 86400]) * rng.choice([1, 1, -1]) + rng.choice([0, 0, rng.uniform(-.5, .5)])
        if abs(d) > 86400 * 2 and rng.random() < .7: d = d % 7200
        sc['ops'].append(dict(t=round(t, 6), a='clock', d=int(d * U)))
        if rng.random() < .2: sc['ops'].append(dict(t=round(t + rng.choice([.0001, .01, 1, 10, 100]), 6), a='clock', d=-int(d * U)))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        a = rng.choice(['ls', 'hup', 'chld', 'cont', 'restart', 'restart', 'term', 'suspend', 'suspend'])
        tt = rng.uniform(sc['fs'] + 10, end)
        if sc['ops'] and rng.random() < .5: tt = rng.choice(sc['ops'])['t'] + rng.choice([-.0005, .0003, -5, 3, -20])
        if tt < sc['fs'] + 6: continue
        if a == 'suspend':
            if not any(o['a'] == 'restart' for o in sc['ops']): sc['ops'].append(dict(t=round(tt, 6), a=a, d=int(rng.choice([8, 50, 600, 3600, 30000, 200000]) * U + rng.randint(0, U))))
            continue
        if a in ('restart', 'term'):
            if any(o['a'] == 'restart' for o in sc['ops']): continue
            if any(o['a'] == 'suspend' for o in sc['ops']): continue
            a = 'restart'
            sc['ops'].append(dict(t=round(tt, 6), a=a, g=rng.choice([3, 10, 100, 2000])))
        else: sc['ops'].append(dict(t=round(tt, 6), a=a))
    if any(o['a'] == 'restart' for o in sc['ops']) and rng.random() < .5:
        o = [o for o in sc['ops'] if o['a'] == 'restart'][0]
        sc['ops'].append(dict(t=round(o['t'] + o['g'] * .5, 6), a='clock', d=rng.choice([-3600, -100, 100, 3600, 86400, -86400]) * U))
    sc['ops'].sort(key=lambda o: o['t'])
    sc['end'] = int(max(end, t, max([o['t'] + o.get('g', 0) for o in sc['ops']] + [0])) + rng.choice([100, 4000]))
    return sc

def rng_txt(l, full):
    return '*' if l == full else ','.join(map(str, l))

def line(x):
    c = ' J%d' % x['j']
    if x['k'] == 'td': return '&mail(no) %s %s %s * *' % (rng_txt(x['m'], list(range(60))), rng_txt(x['h'], list(range(24))), rng_txt(x['d'], list(range(1, 32)))) + c
    if x['k'] == 'up': return '@mail(no)%s %ds' % (',first(%ds)' % x['F'] if x['F'] is not None else '', x['Q']) + c
    if x['k'] == 'hourly': return '%%hours,mail(no) %d-%d * * * *' % (x['a'], x['b']) + c if 0 else '%%hourly,mail(no) %d-%d' % (x['a'], x['b']) + c
    return '%%daily,mail(no) * %d-%d' % (x['a'], x['b']) + c

def build(sc):
    p = base(sc); p.params['log'] = 1; T = {}
    for x in sc['jobs']: T.setdefault(x['u'], []).append(line(x))
    for k, (u, l) in enumerate(sorted(T.items())): p.install(.1 + k * .1, u, '\n'.join(l) + '\n')
    args = ['-l', str(sc['fs'])] + (['-s', str(sc['save'])] if sc['save'] else [])
    p.daemon(2, args, name='d0'); n = 0
    for o in sc['ops']:
        a, t = o['a'], o['t']; n += 1
        if a == 'clock': p.op(t, 'clock', o['d'])
        elif a == 'suspend': p.op(t, 'suspend', o['d'])
        elif a == 'ls': p.fcrondyn(t, 'root', 'ls', name='y%d' % n)
        elif a == 'restart': p.op(t, 'sig', 'daemon', 15); p.daemon(t + o['g'], args, name='d1')
        else: p.op(t, 'sig', 'daemon', {'hup': 1, 'chld': 17, 'cont': 18}[a])
    return p

def nxt(x, c, first):
    """the planned time (s) after a run, or a load, at the clock c (s)"""
    if x['k'] == 'up': return c + (x['Q'] if not first or x['F'] is None else x['F'])
    if x['k'] == 'td':
        cal = Cal([x['m'], x['h'], x['d'], range(1, 13), range(7)]); a = c // 60 * 60 + 60; st = 86400
        while 1:
            l = cal.labels(a, a + st)
            if l: return l[0]
            a += st; st = 40 * 86400
    P = 3600 if x['k'] == 'hourly' else 86400; un = 60 if P == 3600 else 3600
    b = c // P * P
    if first:
        m = c // 60 * 60 + 60; b = m // P * P
        if m < b + x['a'] * un: return b + x['a'] * un
        if m < b + (x['b'] + 1) * un: return m
    return b + P + x['a'] * un

def check(sc, tr, R):
    cl = sorted(list(tr.clocks) + list(tr.susp))
    segs = []; a = 0
    for e in cl:
        t = e[0] if isinstance(e, (tuple, list)) else e.t
        segs.append((a, t)); a = t
    segs.append((a, tr.T + 1))
    reals = [tr.real(s[0]) for s in segs]
    D = tr.daemons; fs = sc['fs']
    if not D or len(D) > 2: return
    def when(lo, sec):
        """first moment from lo at which the clock shows sec"""
        for (s, e), r in zip(segs, reals):
            if e <= lo: continue
            b = max(s, lo); rb = r + b - s
            if rb >= sec * U: return b
            if r + (e - s) > sec * U: return s + sec * U - r
        return None
    def jumps(lo, hi): return [s for s, e in segs[1:] if lo <= s <= hi]
    users = {}
    for e in tr.ev:
        if e['e'] == 'log':
            m = re.match(r'adding (?:new )?file (\w+)', (e.get('m') or ''))
            if m: users.setdefault((e['p'], m.group(1)), e['t'])
    for x in sc['jobs']:
        nm = 'J%d (%s)' % (x['j'], line(x)); runs = tr.of(x['j']); k = 0; N = None; slack = 0; last = None
        for i, d in enumerate(D):
            ld = users.get((d.name, x['u']), d.t)
            stop = d.term if d.term is not None else tr.T
            if d.end is not None: stop = min(stop, d.end)
            first = when(d.t, tr.real(d.t) // U + fs) if not jumps(d.t, d.t + (fs + 1) * U) else None
            if first is None: R.cover('skipped: clock change in the first seconds'); return
            c = tr.real(ld) // U
            if i == 0: N = nxt(x, c, True); slack = 1 if x['k'] == 'up' else 0
            else:
                if x['k'] == 'up':
                    N = c + max(0, N - tr.real(D[i - 1].term) // U); slack = 3
                elif N <= c: N = nxt(x, c, True); slack = 0
                # close to the start or the stop: not certain
            cur = first
            while 1:
                t = when(cur, N - slack); hi = when(cur, N + slack)
                r = runs[k] if k < len(runs) else None
                sus = [(ts, us) for ts, us in tr.susp if cur <= ts and (t is None or ts <= t + U) and (r is None or r.t > ts - U)]
                if sus:
                    ts, us = sus[0]; ca = tr.real(ts) // U; cb = ca - us // U
                    if abs(N - cb) < 3 or abs(N - ca) < 3 or ca % 60 in (0, 1, 58, 59) or r is not None and abs(r.t - ts) < U and x['k'] != 'up' or any(abs(q - ts) < U for q in jumps(ts - 2 * U, ts + 2 * U) if q != ts): N = None; R.cover('not settled: close to a suspend'); break
                    if r is not None and r.t < ts: return R.fail('early', '%s is run at %.3f s before its time' % (nm, r.t / U), r.t)
                    if x['k'] == 'up': N += us // U; slack += 2
                    elif N <= ca: N = nxt(x, ca, True)
                    cur = ts + 1; R.cover('suspend'); continue
                if t is None or t > stop:
                    if r is not None and r.t < stop: return R.fail('early', '%s is run at %.3f s (clock %s); it is planned for %s' % (nm, r.t / U, fmt(tr.real(r.t) // U), fmt(N)), r.t)
                    break
                hi = hi if hi is not None else tr.T + 10 * U
                if i == 0 and d.term is not None and hi > d.term - 1.5 * U or i and hi < first + 2 * U and x['k'] != 'up':
                    # about the time of the stop or of the start: either
                    if r is None or r.t > hi + 2 * U:
                        if i: N = nxt(x, tr.real(hi) // U, False); cur = hi + 1; continue
                        break
                if r is not None and r.t < t - 10: return R.fail('early', '%s is run at %.3f s (clock %s); it is planned for %s%s' % (nm, r.t / U, fmt(tr.real(r.t) // U), fmt(N), ', last run at %.3f s (%s)' % (last.t / U, fmt(tr.real(last.t) // U)) if last else ''), r.t)
                if r is None or r.t > hi + 1.3 * U:
                    if hi + 1.4 * U > min(stop, tr.T): break
                    j = jumps(t - 1000, hi + 10000)
                    # the clock showed that time only for a moment
                    back = [q for q in jumps(t, hi + 1.4 * U) if tr.real(q) // U < N]
                    if back: R.cover('shown for a moment'); cur = back[0] + 1; continue
                    return R.fail('silent', '%s is not run when the clock shows %s at %.3f s%s' % (nm, fmt(N), t / U, ' (next run at %.3f s)' % (r.t / U) if r else ''), int(t))
                R.ok(1, 'runs at the planned clock time')
                if jumps(t - 2, t + 2): R.cover('due by a change of the clock')
                # the clock of the planning: read when the daemon woke up
                cands = {tr.real(r.t) // U, tr.real(max(t, r.t - 20000) if x['k'] != 'up' else r.t) // U}
                for q in jumps(r.t - 30000, r.t + 30000): cands |= {tr.real(q - 1) // U, tr.real(q) // U, tr.real(min(t, q - 1)) // U}
                if len({nxt(x, c, False) for c in cands}) > 1:
                    # which clock it saw is not certain: settled by the next run
                    ns = sorted({nxt(x, c, False) for c in cands}); k += 1; last = r; cur = r.t + 1
                    nr = runs[k] if k < len(runs) else None
                    if nr is None: N = None; break
                    ok = [n for n in ns if when(cur, n) is not None and abs(nr.t - when(cur, n)) < 1.4 * U]
                    if not ok: N = None; R.cover('not settled'); break
                    N = min(ok, key=lambda n: abs(nr.t - when(cur, n))); slack = 0
                    R.cover('run during the change'); continue
                N = nxt(x, cands.pop(), False); slack = 0
                last = r; k += 1; cur = r.t + 1
            if N is None: break
        
def fmt(s): return datetime.datetime.fromtimestamp(s, datetime.timezone.utc).strftime('%Y-%m-%d %H:%M:%S')
