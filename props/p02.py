"""P02: every N-th match, and start jitter; the count carries over restarts and edits."""
from common import *
QUICK = 700
GRACE = 4

def gen_big(rng):
    """frequencies which do not fit in one byte"""
    N = rng.choice([rng.randint(250, 270), rng.randint(256, 700), 1000])
    end = int(N * 60 * rng.uniform(1.1, 2.3)) + 600
    sc = new_sc(rng, end, rand_rt(rng), zone=None, firstsleep=rng.choice([None, 1, 45]), jit=False)
    u = rng.choice(US[:4])
    for k, n in enumerate([N, rng.choice([N - 256, N // 2, 300, 2]) or 2]):
        n = max(2, n); rf = n if rng.random() < .5 else None
        j = dict(id=k + 1, user=u, kind='&', opts=[] if rf else ['runfreq(%d)' % n], spec=['*'] * 5, sets=[list(range(60)), list(range(24)), list(range(1, 32)), list(range(1, 13)), list(range(8))], dayor=False, N=n, J=0, rfnum=rf, cmd='J%d' % (k + 1))
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    sc['ops'] = []; t = 60
    for _ in range(rng.choice([1, 1, 2])):
        t = rng.uniform(t + 30, end * .6); o = dict(t=round(t, 2), k=rng.choice(['restart', 'restart', 'edit']), gap=rng.choice([1, 5, 70]))
        if o['k'] == 'edit': o['u'] = u; o['n'] = rng.randint(0, 99)
        sc['ops'].append(o); t += o['gap'] + 60
    return sc

def gen(rng, i, tier):
    if rng.random() < .04: return gen_big(rng)
    zone = rng.choice(ZONES) if rng.random() < .4 else None
    style = rng.choice(['min', 'min', 'hour', 'day'])
    end = {'min': rng.randint(1, 5) * 3600, 'hour': rng.randint(10, 60) * 3600, 'day': rng.randint(20, 90) * 86400}[style]
    sc = new_sc(rng, end, rand_rt(rng), zone=zone, firstsleep=rng.choice([None, 1, 20, 45]), jit=rng.random() < .5)
    users = rng.sample(US[:4], rng.randint(1, 2))
    for k in range(rng.choice([1, 2, 4, 8, 12])):
        ft, fs = fields(rng, style if rng.random() < .8 else 'any')
        N = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 12, 60]) ; J = 0; o = []; rf = None
        if sc['jit'] and rng.random() < .7: J = rng.choice([1, 10, 30, 59, 60, 61, 100, 200, 255])
        if N == 1 and not J: N = 2
        if J: o.append('jitter(%d)' % J)
        if N > 1:
            if not o and rng.random() < .5: rf = N
            else: o.append(rng.choice(['runfreq(%d)', 'rf(%d)', 'r(%d)']) % N if False else 'runfreq(%d)' % N)
        if not rf and rng.random() < .3: o.append(rng.choice(['nolog', 'mail(false)', 'exesev', 'b(0)', 'noticenotrun(0)']))
        dayor = not rf and rng.random() < .2
        if dayor: o.append('dayor')
        j = dict(id=k + 1, user=rng.choice(users), kind='&', opts=o, spec=ft, sets=fs, dayor=dayor, N=N, J=J, rfnum=rf, cmd='J%d%s' % (k + 1, rng.choice(['', '', ' o10', ' x1'])))
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    rate = sum(len(j['sets'][0]) * len(j['sets'][1]) * (len(j['sets'][2]) / 31) * (len(j['sets'][3]) / 12) * min(1, len(j['sets'][4]) / 7) for j in sc['jobs']) / 86400 + 1e-9
    end = sc['end'] = int(max(3600, min(end, (2500 if tier == 'quick' else 8000) / rate)))
    sc['ops'] = noise(rng, end) if rng.random() < .4 else []
    t = 60
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        if t + 40 > end - 300: break
        t = rng.uniform(t + 30, end - 200)
        k = rng.choice(['restart', 'restart', 'edit', 'usr1'])
        if k == 'usr1': continue
        o = dict(t=round(t, 2), k=k, gap=rng.choice([1, 5, 30, 70, 200, 3000]))
        if k == 'edit': o['u'] = rng.choice(users); o['n'] = rng.randint(0, 99)
        sc['ops'].append(o); t += (o['gap'] if k == 'restart' else 20) + 60
    sc['ops'].sort(key=lambda o: o['t'])
    return sc

def build(sc):
    from simlib import ROOT_ENV
    p = base(sc); tables(p, 1, sc['jobs'])
    env = ROOT_ENV + ['TZ=' + sc['zone']] if sc['zone'] else None
    args = ['-l', str(sc['firstsleep'])] if sc['firstsleep'] is not None else []
    p.daemon(5, args, env=env); n = 1
    for o in sc['ops']:
        if do_noise(p, o): continue
        if o['k'] == 'restart':
            p.op(o['t'], 'sig', 'daemon', 15); p.daemon(o['t'] + o['gap'], args, name='d%d' % n, env=env); n += 1
        elif o['k'] == 'edit':                                    # another job is added: the jobs which stay keep their count
            if any(j['user'] == o['u'] for j in sc['jobs']): p.install(o['t'], o['u'], '@ 3d J%d\n' % (800 + o['n']) + table(sc['jobs'], o['u']) + '# edited\n')
    return p

def check(sc, tr, R):
    fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    if not tr.daemons: return
    ds = tr.daemons
    rt0 = tr.real(0) / 1e6
    reload = any(o['k'] in ('usr1', 'z') for o in sc['ops'])
    ups = []                                             # while it is up and past its first sleep
    for d in ds: ups.append((d.r / 1e6, d.end_r / 1e6 if d.end is not None else tr.real(tr.T) / 1e6))
    for j in sc['jobs']:
        cal = Cal(j['sets'], j['dayor']); z = Zone(sc['zone']); N, J = j['N'], j['J']
        a0, b0 = ups[0][0], ups[-1][1]
        # instants of matches (skip the jobs with a match near a change of the clock)
        if any(z.off(q) != z.off(q - 900) for q in range(int(a0) // 900 * 900 - 86400, int(b0) + 86400, 900)) if (b0 - a0) < 400 * 86400 else True:
            R.cover('skipped: clock change'); 
            if z.name: continue
        off = z.off(int(a0)); M = [l - off for l in cal.labels(int(a0 + off) // 60 * 60 + 60, int(b0 + off) + 60)]
        runs = [x.r / 1e6 for x in tr.of(j['id'])]
        spec = '%s (every %d matches, jitter %d)' % (j['line'], N, J)
        def fmt(t): return datetime.datetime.fromtimestamp(t, z.z).strftime('%F %T')
        def state(m):
            """True: match m is surely counted, False: surely not, None: uncertain"""
            for (s, e) in ups:
                if reload and s < m <= s + fs + 3: return None
                if s < m and m + J + 3 <= e: return True
                if m <= s and m > s - 1: return None
            for (s, e) in ups:
                if m - 3 <= e and s <= m and m + J + 3 >= e: return None
            for (s, e) in ups:
                if s <= m <= e: return True
            return False
        if J == 0:
            lo = hi = N; ri = 0; amb = False             # matches left until the next run: between lo and hi
            for m in M:
                st = state(m)
                ran = [x for x in runs if m - .5 <= x <= m + 60]
                early = any(s < m <= s + fs for s, e in ups)
                ok = [x for x in ran if x <= m + GRACE or (early and any(s < m and x <= s + fs + GRACE for s, e in ups))]
                if len(ran) > 1: R.fail('twice', 'job %s ran %d times at %s' % (spec, len(ran), fmt(m))); return
                if ran and not ok: R.fail('late', 'job %s ran at %s' % (spec, fmt(ran[0]))); return
                if st is None:
                    if ran: lo = hi = N
                    else: lo = max(1, lo - 1); 
                    amb = True; continue
                if st is False:
                    if ran: R.fail('while-down', 'job %s ran at %s' % (spec, fmt(m))); return
                    continue
                if ran:
                    if lo > 1: R.fail('too-early', 'job %s ran at %s, %d matches too early' % (spec, fmt(m), lo - 1)); return
                    lo = hi = N; R.ok(1, 'nth runs')
                else:
                    if hi <= 1: R.fail('missed', 'job %s did not run at %s, its match number %d' % (spec, fmt(m), N)); return
                    lo = max(1, lo - 1); hi -= 1; R.ok()
            for x in runs:
                if not any(m - .5 <= x <= m + 60 for m in M[max(0, bisect_r(M, x) - 2):bisect_r(M, x) + 1]): R.fail('wrong-time', 'job %s ran at %s which does not match' % (spec, fmt(x))); return
        else:
            # with jitter, matches which fall before the previous (delayed) one are skipped: bounds
            def nxt(t):
                k = bisect_r(M, t // 60 * 60 + 59.9); return M[k] if k < len(M) else None
            prev = None; segs = [(s, e) for s, e in ups]
            for k, x in enumerate(runs):
                base_t = prev if prev is not None else segs[0][0]
                t1 = t2 = base_t; bad = False
                for q in range(N):
                    t1 = nxt(t1) if t1 is not None else None
                    t2 = nxt(t2) if t2 is not None else None
                    if t2 is not None: t2 += J
                if t1 is None or x < t1 - .5: R.fail('jitter-early', 'job %s ran at %s, before its match number %d after %s (%s)' % (spec, fmt(x), N, fmt(base_t), fmt(t1) if t1 else '-')); return
                cut = any(base_t <= e and s <= x + J + 60 for (s0, e), (s, e2) in zip(segs, segs[1:]))
                fsd = any(s <= x <= s + fs + GRACE for s, e in segs)
                if t2 is not None and x > t2 + GRACE and not cut and not fsd: R.fail('jitter-late', 'job %s ran at %s, after the end %s of the jitter of its match number %d after %s' % (spec, fmt(x), fmt(t2), N, fmt(base_t))); return
                if N == 1:
                    kk = bisect_r(M, x + .5) - 1
                    if (kk < 0 or x > M[kk] + J + GRACE) and not fsd: R.fail('jitter-time', 'job %s ran at %s, more than %d s after the last match' % (spec, fmt(x), J)); return
                R.ok(1, 'jitter runs'); prev = x
            # nothing missing at the end
            t2 = prev if prev is not None else segs[0][0]; b = t2
            for q in range(N):
                t2 = nxt(t2) if t2 is not None else None
                if t2 is not None: t2 += J
            if t2 is not None and len(segs) == 1 and t2 + GRACE + fs < segs[-1][1]: R.fail('jitter-missed', 'job %s did not run between %s and %s' % (spec, fmt(b), fmt(t2))); return

from bisect import bisect_right as bisect_r
