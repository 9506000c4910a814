"""P11: the saved state of jobs survives crashes and disk errors."""
from common import *
QUICK = 4000
U = 1000000
MIN = ['faults', 'ops', 'jobs']
EIO, ENOSPC, EDQUOT, EROFS, EMFILE, EACCES = 5, 28, 122, 30, 24, 13
SYS = ['write', 'write', 'rename', 'open', 'fdatasync', 'close', 'fchown', 'fchmod', 'lseek', 'unlink', 'fstat', '*']
FS = 1

def gen(rng, i, tier):
    S = rng.choice([60, 60, 90, 120, 200, 300]); end = rng.choice([2400, 4000, 7200, 4 * 3600])
    rt = rng.randint(ts(2005, 1, 1), ts(2036, 1, 1))
    sc = new_sc(rng, end, rt=rt, savetime=S, daemon_may_die=True, commit=rng.choice([0, 1, 5, 30]), users=rng.sample(US[:4], rng.randint(1, 3)))
    nj = rng.choice([1, 3, 5, 8]); sc['pad'] = {u: rng.choice([0, 0, 0, 8, 40]) for u in sc['users']}
    for k in range(nj):
        kind = rng.choice(['@', '@', '&', 'n', '%']); u = rng.choice(sc['users']); cmd = 'J%d%s' % (k + 1, rng.choice(['', '', ' w' + 'x' * rng.choice([5, 200, 700]), ' x1']))
        j = dict(id=k + 1, user=u, kind='&' if kind == 'n' else kind, opts=[], cmd=cmd)
        if kind == '@':
            F = rng.choice([rng.randint(2, 40), rng.randint(2, 200)]); j['F'] = F * 60; j['spec'] = [str(F)]; j['line'] = '@ %d %s' % (F, cmd)
        elif kind == '&':
            p = rng.choice([1, 3, 5, 10, 20]); st = rng.randint(0, p - 1); j['p'] = p; j['st'] = st; j['N'] = 1; j['line'] = '& %d-59/%d * * * * %s' % (st, p, cmd)
        elif kind == 'n':
            p = rng.choice([1, 2, 5]); st = rng.randint(0, p - 1); N = rng.choice([2, 3, 5, 10]); j['p'] = p; j['st'] = st; j['N'] = N; j['line'] = '&%d %d-59/%d * * * * %s' % (N, st, p, cmd)
        else: j['spec'] = ['*']; j['line'] = '%%hourly * %s' % cmd
        sc['jobs'].append(j)
    ops = []; t = 5.; n = 1; b = 5.
    while True:
        L = rng.choice([rng.uniform(20, 300), S * rng.randint(1, 6) + rng.uniform(-1, 3), rng.uniform(100, 2500)])
        if t + L > end - 420: break
        e = t + L; c = rng.random(); k = rng.choice([1, 1, 2, 3]); sv = b + k * S        # a save is near b + k*S
        how = rng.choice(['crash', 'crash', 'fcrash', 'fcrash', 'fcrash', 'kill', 'fkill', 'term', 'usr1', 'none'])
        if how in ('fcrash', 'fkill') and sv < e:
            sc['faults'].append(dict(who='d%d' % (n - 1), sys=rng.choice(['*', '*', 'rename', 'write', 'open', 'fdatasync', 'close']), frm=rng.choice([1, 2, 3, rng.randint(1, 15), rng.randint(1, 150)]), cnt=1, kind=rng.choice('Cc' if how == 'fcrash' else 'Kk'), arg=rng.randint(1, 10 ** 6), t0=round(sv - rng.choice([.5, 2]), 2), t1=round(sv + 4, 2)))
        elif how == 'crash': ops.append(dict(t=round(rng.choice([e, sv + rng.uniform(0, .01)]) if sv < e else e, 4), k='crash', key=rng.randint(1, 10 ** 6)))
        elif how == 'kill': ops.append(dict(t=round(e, 4), k='sig', s=9))
        elif how == 'term': ops.append(dict(t=round(e, 4), k='sig', s=15))
        elif how == 'usr1': ops.append(dict(t=round(e, 4), k='sig', s=10))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            x = rng.choice([sv - .5, sv - 2, t + rng.uniform(5, L)]); w = rng.choice([3, 20, S, 2.5 * S, 6 * S])
            if rng.random() < .4: ops += [dict(t=round(x, 3), k='disk', v=rng.choice([0, 0, 1, 60, 300, 700, 2000]), m=rng.choice([1, 1, 2]), w=round(w, 3))]
            else: 
                s = rng.choice(SYS); er = {'open': [EIO, ENOSPC, EMFILE, EACCES, EROFS], 'write': [EIO, ENOSPC, EDQUOT]}.get(s, [EIO, ENOSPC, EROFS])
                if s == '*': s = 'write'
                kd = 'E' if s != 'write' or rng.random() < .6 else 'S'
                sc['faults'].append(dict(who='d[0-9]*', sys=s, frm=rng.choice([1, 1, 2, 3, rng.randint(1, 9)]), cnt=rng.choice([1, 1, 2, 5, 10000]), kind=kd, arg=rng.choice(er) if kd == 'E' else rng.choice([1, 3, 50]), t0=round(x, 2), t1=round(x + w, 2)))
        t = e + rng.choice([.5, 3, 30, 200]); 
        ops.append(dict(t=round(t, 3), k='start', n=n)); b = t; n += 1
    sc['clean'] = round(end - 400, 3)
    # faults hit the saves, not the loading of the tables
    for f in sc['faults']:
        if f['kind'] in 'ES':
            for o in ops:
                if o['k'] == 'start' or o['k'] == 'sig' and o['s'] == 10:
                    if f['t0'] - 3 < o['t'] < f['t0'] + .5: f['t0'] = o['t'] + 3.5
            for o in ops:
                if o['k'] == 'start' or o['k'] == 'sig' and o['s'] == 10:
                    if f['t0'] < o['t'] < f['t1'] + .5: f['t1'] = o['t'] - .5
    for f in sc['faults']: f['t1'] = min(f['t1'], sc['clean'] - 10)
    for o in ops:
        if o['k'] == 'disk': o['w'] = min(o['w'], sc['clean'] - 10 - o['t'])
    sc['faults'] = [f for f in sc['faults'] if f['t1'] > f['t0']]
    ops = [o for o in ops if o['t'] < sc['clean'] - 12 and o.get('w', 1) > 0]
    ops.append(dict(t=sc['clean'], k='start', n=n)); sc['ops'] = sorted(ops, key=lambda o: o['t'])
    return sc

def build(sc):
    p = base(sc); p.params['commit'] = '%d %d' % (sc['commit'] * U, max(sc['commit'], 30) * U)
    heads = {u: '!mail(no)\n' + ''.join('E%d = %s\n' % (q, 'v' * (37 * q % 90)) for q in range(sc['pad'][u])) for u in sc['users']}
    tables(p, .5, sc['jobs'], heads); args = ['-l', str(FS), '-s', str(sc['savetime'])]
    p.op(3, 'sync'); p.daemon(5, args)
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if k == 'disk': p.op(t, 'disk', o['v'], o['m']); p.op(t + o['w'], 'disk', -1)
        elif k == 'crash': p.op(t, 'crash', o['key'])
        elif k == 'sig': p.op(t, 'sig', 'daemon', o['s'])
        elif k == 'start': p.daemon(t, args, name='d%d' % o['n'])
    for f in sc['faults']:
        for w in (['d[0-9]', 'd[0-9][0-9]'] if f['who'] == 'd[0-9]*' else [f['who']]): p.fault(w, f['sys'], f['frm'], f['cnt'], f['kind'], f['arg'], f['t0'], f['t1'])
    return p

def check(sc, tr, R):
    S = sc['savetime'] * U; J = {j['id']: j for j in sc['jobs']}
    for x in tr.jobs:
        if x.id not in J: return R.fail('phantom', 'a job J%d which is in no table ran' % x.id, x.t)
        if x.uid != UID[J[x.id]['user']]: return R.fail('owner', 'job J%d of %s ran as uid %d' % (x.id, J[x.id]['user'], x.uid), x.t)
        w = J[x.id]['cmd'].split()
        if x.e.get('cmd') is not None and x.e['cmd'] != J[x.id]['cmd']: return R.fail('command', 'job J%d was started as %r, its table has %r' % (x.id, x.e['cmd'], J[x.id]['cmd']), x.t)
    # ---- times at which a save may fail
    bad = sorted([(f['t'], f['t']) for f in tr.faults] + [(o['t'] * U, (o['t'] + o['w']) * U) for o in sc['ops'] if o['k'] == 'disk'])
    # ---- lives of the daemon
    live = []
    for d in tr.daemons:
        if d.end is not None and d.end_by == 'exit' and d.term is None:
            if any(o.t < d.t and (o.end is None or o.end > d.t) for o in live): continue        # refused: another one runs
            if d.end - d.t < U and bad: continue                                                # not started
            return R.fail('died', 'the daemon stopped by itself (status %s)' % d.st, d.end)
        live.append(d); R.ok(1, 'daemon survives')
    segs = []
    for d in live:
        e = d.end if d.end is not None else tr.T; b = d.t
        cuts = [o['t'] * U for o in sc['ops'] if o['k'] == 'sig' and o['s'] == 10 and b < o['t'] * U < e]
        for c in cuts: segs.append((b, c, 'usr1', d)); b = c
        segs.append((b, e, d.end_by if d.term is None or d.end_by != 'exit' else 'term', d))
    def lo_of(b, e, how):
        """the state restored after e is that of a time of [lo, e] (or the one loaded at b)"""
        lo = e - (S + 12 * U) if how in ('crash', 'signal') else e - 12 * U
        ch = True
        while ch:
            ch = False
            for x, y in bad:
                if y >= lo and x <= e + 5 * U and x - S - 12 * U < lo: lo = x - S - 12 * U; ch = True
        return lo
    off = lambda t: tr.real(int(t))
    for j in sc['jobs']:
        xs = [x for x in tr.jobs if x.id == j['id']]; jn = 'job J%d of %s' % (j['id'], j['user'])
        loss = [(max(lo_of(b, e, h), -1), e) for b, e, h, d in segs if e < tr.T]
        if j['kind'] == '@':
            F = j['F'] * U; r = (F, F); hist = None
            for b, e, h, d in segs:
                runs = [x for x in xs if b <= x.t < e]; tol = 5 * U
                # a job recorded as running when the state was saved is run again at once
                if hist and runs and runs[0].t - b < (FS + 6) * U and not (r[0] - tol <= runs[0].t - b <= r[1] + tol):
                    if any(hist[0] - 2 * U <= x.t <= hist[1] for x in xs): runs = runs[1:]
                ext = (FS + 2) * U
                lo, hi = b + r[0] - tol, b + max(r[1], ext) + tol
                if runs:
                    x = runs[0]; R.ok(1, 'uptime job after %s' % (hist[2] if hist else 'start'))
                    if not (lo <= x.t <= hi): return R.fail('uptime', '%s ran at %.1f s: %.0f s after the start of the daemon, expected %.0f to %.0f s from the last saved state' % (jn, x.t / U, (x.t - b) / U, r[0] / U, max(r[1], ext) / U), x.t)
                    for y, z in zip(runs, runs[1:]):
                        R.ok(1, 'uptime job')
                        if abs(z.t - y.t - F) > 4 * U: return R.fail('uptime', '%s ran at %.1f s and then at %.1f s, frequency %d s' % (jn, y.t / U, z.t / U, j['F']), z.t)
                    last = runs[-1].t
                    if e - last > F + tol: return R.fail('lost', '%s does not run any more after %.1f s' % (jn, last / U), e)
                elif e > hi: return R.fail('lost', '%s has not run by %.1f s, expected %.0f to %.0f s after the start at %.1f s' % (jn, e / U, r[0] / U, r[1] / U, b / U), e)
                # what may be restored next
                w = lo_of(b, e, h); rs = []
                nx = [x.t for x in runs]
                if not nx: rs += [(max(0, r[0] - (e - b)), max(0, r[1] - (max(w, b) - b)))]
                else:
                    if any(w <= t <= e for t in nx): rs += [(0, F)]
                    else: t = nx[-1]; rs += [(max(0, t + F - e), max(0, t + F - max(w, t)))]
                    if w < nx[0]: rs += [(0, max(r[1], 0)), (0, F)]
                if w < b: rs.append(r)
                r = (min(x[0] for x in rs), max(x[1] for x in rs)); hist = (w, e, h)
        elif j['kind'] == '&':
            N = j['N']
            for b, e, h, d in segs:
                runs = [x for x in xs if b <= x.t < e]
                ms = []; m = off(b) // (60 * U) * 60 * U
                while m < off(e):
                    mi = m // U // 60 % 60
                    if mi >= j['st'] and (mi - j['st']) % j['p'] == 0 and m > off(b): ms.append(m - (off(b) - b))
                    m += 60 * U
                idx = []
                for x in runs:
                    q = [k for k, t in enumerate(ms) if 0 <= x.t - t < 8 * U]
                    if not q:
                        if x.t - b < (FS + 6) * U and any(l - 2 * U <= y.t <= c and y.t < b for l, c in loss for y in xs): continue     # run again: recorded as running
                        return R.fail('unscheduled', '%s ran at %.1f s' % (jn, x.t / U), x.t)
                    idx.append(q[-1]); R.ok(1, 'run at its minute')
                if N > 1 and idx and runs[0].t - b < (FS + 6) * U and any(l - 2 * U <= y.t <= c and y.t < b for l, c in loss for y in xs): idx = idx[1:]; slack = N
                else: slack = 0
                idx = sorted(idx); n = len(ms)
                if ms and ms[0] < b + (FS + 3) * U:                   # the first minute may pass during startup
                    n0 = 1
                else: n0 = 0
                if ms and e - ms[-1] < 5 * U: n -= 1
                if N == 1:
                    miss = [k for k in range(n0, n) if k not in idx]
                    miss = [k for k in miss if not any(f['sys'] in ('fork', 'malloc', 'pipe', 'open', 'close') and abs(f['t'] - ms[k]) < 10 * U for f in tr.faults) and not any(abs(ms[k] - s) < 5 * U for s in [q[0] for q in segs])]
                    if miss: return R.fail('lost', '%s did not run at %.1f s' % (jn, ms[miss[0]] / U), ms[miss[0]])
                    if len(set(idx)) < len(idx): return R.fail('twice', '%s ran twice at one minute' % jn, e)
                else:
                    for a, c in zip(idx, idx[1:]):
                        if c - a != N: return R.fail('count', '%s ran at matching minutes %d and %d since the start at %.1f s, expected every %d' % (jn, a, c, b / U, N), ms[c])
                        R.ok(1, 'every nth')
                    f = idx[0] if idx else n
                    if f > N + slack: return R.fail('count', '%s did not run within the %d first matching minutes after %.1f s' % (jn, f, b / U), e)
                    if idx and n - 1 - idx[-1] > N: return R.fail('count', '%s does not run any more after %.1f s' % (jn, ms[idx[-1]] / U), e)
        else:
            per = {}
            had = set(off(x.t) // (3600 * U) for x in xs)
            for b, e, h, d in segs:                                 # recorded as running: run again
                z = [x for x in xs if b <= x.t < b + (FS + 6) * U]
                if z and any(l - 2 * U <= y.t <= c and y.t < b for l, c in loss for y in xs): xs = [x for x in xs if x is not z[0]]
            for x in xs: per.setdefault(off(x.t) // (3600 * U), []).append(x)
            hh = off(live[0].t) // (3600 * U) + 1 if live else 0
            while live and hh < off(tr.T) // (3600 * U):
                h0 = hh * 3600 * U; ss = [s for s in segs if off(s[0]) < h0 + 3600 * U and off(s[1]) > h0]
                up = sum(max(0, min(off(s[1]), h0 + 3600 * U) - max(off(s[0]), h0)) for s in ss)
                q = per.get(hh, []); R.ok(1, 'hourly job')
                if len(ss) == 1 and up > 3599 * U and hh not in had and not any(f['sys'] in ('fork', 'malloc', 'pipe', 'open', 'close') and h0 <= off(f['t']) < h0 + 10 * U for f in tr.faults): return R.fail('lost', '%s did not run in the hour of %.1f s' % (jn, (h0 - off(0)) / U), h0 - off(0))
                n = 1
                for l, c in loss:
                    if any(l - 2 * U <= x.t <= c for x in q): n += 1
                if len(q) > n: return R.fail('twice', '%s ran %d times in one hour, at %s s' % (jn, len(q), ', '.join('%.1f' % (x.t / U) for x in q)), q[-1].t)
                hh += 1
    # ---- at the end everything is there
    for j in sc['jobs']:
        R.cover('%s job' % j['kind'])
    if live and live[-1].end is None:
        b = live[-1].t; e = tr.T
        for j in sc['jobs']:
            if j['kind'] == '&' and j['N'] == 1 and j['p'] <= 3 and e - b > 380 * U:
                R.ok(1, 'table whole at the end')
                if not any(x.id == j['id'] and x.t > b for x in tr.jobs): return R.fail('lost-job', 'job J%d of %s is not run any more after the faults' % (j['id'], j['user']), e)
