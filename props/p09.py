"""P09: load-average jobs start only below their thresholds or when their limit expires."""
from common import *
QUICK = 1500
U = 1000000
MIN = ['ops', 'jobs']
POLL = 30

def gen(rng, i, tier):
    end = rng.choice([1800, 3600, 4 * 3600, 8 * 3600]); end = rng.randint(end // 2, end)
    sc = new_sc(rng, end, firstsleep=rng.choice([1, 5, 20]), m=rng.choice([None, 3]))
    users = rng.sample(US[:4], rng.randint(1, 3)); TH = [.1, .3, .5, .5, 1, 1, 1.5, 2, 2, 3.7, 8, 12.5]
    for k in range(rng.choice([1, 2, 3, 5, 8, 12])):
        o = []; th = [0, 0, 0]; c = rng.random()
        if c < .45:
            q = rng.randrange(3); th[q] = rng.choice(TH); o.append('lavg%d(%s)' % ([1, 5, 15][q], th[q]))
        elif c < .75:
            th = [rng.choice(TH + [0, 0, 0]) for _ in range(3)]; o.append('lavg(%s,%s,%s)' % tuple(th))
        else:
            for q in rng.sample(range(3), rng.randint(1, 2)): th[q] = rng.choice(TH); o.append('lavg%d(%s)' % ([1, 5, 15][q], th[q]))
        if not any(th): th[0] = .5; o = ['lavg1(.5)']
        lor = rng.random() < .35
        if lor: o.append(rng.choice(['lavgor', 'lavgand(0)', 'lavgor(true)']))
        elif rng.random() < .2: o.append(rng.choice(['lavgand', 'lavgor(no)']))
        multi = rng.random() < .3
        if multi: o.append('lavgonce(0)')
        serial = rng.random() < .2
        if serial: o.append('serial')
        until = rng.choice([1, 2, 3, 5, 10, 30]) if rng.random() < .35 and not serial else 0
        if until: o.append(rng.choice(['until(%d)' % until, 'until(%ds)' % (until * 60)]))
        j = dict(id=k + 1, user=rng.choice(users), th=th, lor=lor, multi=multi, serial=serial, until=until * 60, d=rng.choice([0, 0, 1, 4]))
        cmd = 'J%d%s%s' % (k + 1, ' d%d' % j['d'] if j['d'] else '', rng.choice(['', ' o9', ' x1'])); kind = rng.choice('&&@%%')
        if kind == '&':
            iv = rng.choice([2, 3, 5, 10, 20]); st = rng.randint(0, iv - 1)
            j.update(kind='&', spec=['%d-59/%d' % (st, iv), '*', '*', '*', '*'], iv=iv, st=st, opts=o, cmd=cmd)
            if rng.random() < .3: j['opts'].append('strict')          # for %-lines only
        elif kind == '@':
            Q = rng.choice([90, 120, 300, 600, 1000]); F = rng.choice([Q, 60, 200])
            j.update(kind='@', spec='%ds' % Q, opts=o + ['first(%ds)' % F], Q=Q, F=F, cmd=cmd)
        else:
            a = rng.randint(0, 55); b = rng.randint(a + 1, 59) if rng.random() < .9 else a + 1
            strict = rng.random() < .6; two = None
            if rng.random() < .25 and b < 50: two = (b + 3, min(59, b + 3 + rng.randint(1, 9)))
            if not strict: o.append(rng.choice(['strict(0)', 'strict(false)']))
            elif rng.random() < .5: o.append('strict')
            j.update(kind='%', key='hourly', spec=['%d-%d' % (a, b) + (',%d-%d' % two if two else '')], a=a, b=b, two=two, strict=strict, opts=o, cmd=cmd)
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    LO = [0., .05, .1, .2, .5, 1., 1., 1.5, 2., 2., 4., 9., 20.]
    def load(): return [rng.choice(LO) for _ in range(3)] if rng.random() < .6 else [rng.choice(LO)] * 3
    ops = [dict(t=2, k='lavg', v=load())]; t = 5; step = rng.choice([15, 60, 240, 900])
    while True:
        t += rng.choice([rng.expovariate(1 / step), rng.uniform(1, 2 * step)]) + 1
        if t > end - 10: break
        r = rng.random()
        if r < .85: ops.append(dict(t=round(t, 3), k='lavg', v=load()))
        else:
            o = noise(rng, end, 1)[0]
            if o['k'] != 'usr1': ops.append(o)
    sc['ops'] = sorted(ops, key=lambda o: o['t'])
    return sc

def build(sc):
    p = base(sc); tables(p, 1, sc['jobs']); args = ['-q', '2000', '-l', str(sc['firstsleep'])] + (['-m', str(sc['m'])] if sc['m'] else [])
    p.daemon(5, args)
    for o in sc['ops']:
        if o['k'] == 'lavg': p.op(o['t'], 'loadavg', *o['v'])
        else: do_noise(p, o)
    return p

def check(sc, tr, R):
    if not tr.daemons: return
    d0 = tr.daemons[0]; off = tr.real(d0.t) - d0.t; fs = sc['firstsleep']
    L = [(0, [0., 0., 0.])] + [(int(round(o['t'] * U)), o['v']) for o in sc['ops'] if o['k'] == 'lavg'] + [(tr.T + 10 ** 13, [0, 0, 0])]
    lt = [x[0] for x in L]
    serial = [x for x in tr.jobs if any(j['id'] == x.id and j['serial'] for j in sc['jobs'])]
    for j in sc['jobs']:
        th, lor = j['th'], j['lor']
        ok = lambda v: any(x < y for x, y in zip(v, th)) if lor else all(y == 0 or x < y for x, y in zip(v, th))
        good = []                                            # intervals where the load allows the job
        for (a, v), (b, _) in zip(L, L[1:]):
            if ok(v):
                if good and good[-1][1] == a: good[-1][1] = b
                else: good.append([a, b])
        starts = [g[0] for g in good]
        def allowed(a, b):
            """was it allowed at some time in [a, b]?"""
            k = bisect.bisect_right(starts, b) - 1
            return k >= 0 and good[k][1] > a
        def sure(a, b):
            """first time at which the job must have run, having been queued from a on (None: not before b)"""
            k = max(bisect.bisect_right(starts, a) - 1, 0)
            while k < len(good):
                s = max(good[k][0], a)
                if s > b: return None
                if good[k][1] - s > (POLL + 3) * U: return s + (POLL + 3) * U if s + (POLL + 3) * U < b else None
                k += 1
            return None
        due = []                                             # (time, end of the interval or None)
        if j['kind'] == '&' or j['kind'] == '%':
            mm = tr.real(d0.t) // (60 * U) * 60 * U
            while mm - off < tr.T:
                mi = mm // U // 60 % 60; t = mm - off
                if j['kind'] == '&':
                    if mi >= j['st'] and (mi - j['st']) % j['iv'] == 0 and t > d0.t: due.append((max(t, d0.t + fs * U), None))
                elif mi == j['a'] and t > d0.t + 60 * U: due.append((t, (j['b'] - j['a']) * 60 * U + t))   # the queue is left as the last minute begins
                mm += 60 * U
        else:
            t = tr.real(d0.t) // U * U - off + j['F'] * U
            while t < tr.T: due.append((max(t, d0.t + fs * U), None)); t += j['Q'] * U
        xs = tr.of(j['id']); desc = '"%s"' % j['line'].replace('\n', ' / ')
        first = due[0][0] if due else tr.T
        # safety
        exp = []
        for t, e in due:
            if j['until']:
                u = t + j['until'] * U
                if j['kind'] != '%' or not j['strict'] or u < e: exp.append(u)
                if j.get('two'):                              # not run in the first interval: due again in the second
                    exp.append(t + (j['two'][0] - j['a']) * 60 * U + j['until'] * U)
        for x in xs:
            if allowed(x.t - 2 * U, x.t): R.ok(1, 'started when allowed'); continue
            if any(u - 2 * U <= x.t <= u + (POLL + 3) * U for u in exp): R.ok(1, 'started at the end of the limit'); continue
            if j['kind'] == '%' and x.t < d0.t + 3600 * U and j['until']: continue       # the first, partial period
            return R.fail('load', 'job %s was started although the load did not allow it and no limit had expired' % desc, x.t)
        if j['kind'] == '%' and j['strict']:
            for x in xs:
                mi = tr.real(x.t) // U // 60 % 60; se = tr.real(x.t) // U % 60
                iv = [(j['a'], j['b'])] + ([tuple(j['two'])] if j['two'] else [])
                if not any(a <= mi <= b or mi == (b + 1) % 60 and se <= 2 for a, b in iv):
                    if j['until'] and not j['two'] and any(u - 2 * U <= x.t <= u + (POLL + 3) * U for u in exp): continue
                    if not (mi == (j['b'] + 1) % 60 and se <= POLL + 2 and False):
                        return R.fail('strict', 'strict job %s was started outside of its interval' % desc, x.t)
                R.ok(1, 'strict: in its interval')
        # liveness
        used = set(); nxt = [t for t, e in due[1:]] + [tr.T]
        if j['serial']:
            R.cover('serial, liveness in P07'); continue
        pend = 0
        prev = d0.t
        for (t, e), n in zip(due, nxt):
            lim = tr.T - 3 * U
            if j['until']: lim = min(lim, t + (j['until'] + POLL + 3) * U)
            s = sure(t, lim)
            if j['kind'] == '%' and j['strict']:
                if s is not None and s > e - 3 * U: s = None
                elif s is None and j['until'] and t + (j['until'] + POLL + 3) * U < e and t + (j['until'] + POLL + 3) * U < tr.T - 3 * U: s = t + (j['until'] + POLL + 3) * U
            elif s is None and j['until'] and t + (j['until'] + POLL + 3) * U <= lim: s = t + (j['until'] + POLL + 3) * U
            if s is None: continue
            got = [x for x in xs if t - U <= x.t <= s + 3 * U]
            if not got:
                if not j['multi'] and any(x.t < t and (x.end is None or x.end > t - 2 * U) for x in xs): continue     # was still running
                return R.fail('late', 'job %s, due at %.1f s, was not started by %.1f s although the load allowed it or its limit had expired' % (desc, t / U, s / U), s)
            R.ok(1, 'started in time')
        # number of runs: a queued job runs once for each of its due times (or once in all, with lavgonce)
        if j['kind'] != '%' and len(xs) > len(due): return R.fail('twice', 'job %s was started %d times although it became due %d times only' % (desc, len(xs), len(due)), xs[-1].t)
        if j['kind'] == '%':
            # once in each period
            per = {}
            for x in xs:
                if j['strict'] or allowed(first, x.t): per.setdefault(tr.real(x.t) // (3600 * U), []).append(x)
            for q in per.values():
                if len(q) > 1 and j['strict'] and not j['multi']: return R.fail('twice', 'job %s was started twice in one period' % desc, q[1].t)
        if j['multi'] and j['kind'] != '%' and not j['until']:
            # all of the instances queued run when the load falls
            for a, b in good:
                if b - a > (POLL + 5) * U and a > d0.t + fs * U:
                    s = a + (POLL + 4) * U
                    if s > tr.T - 3 * U: continue
                    n1 = sum(1 for t, e in due if t <= a); n2 = sum(1 for x in xs if x.t <= s)
                    if n2 < n1: return R.fail('lost', 'job %s became due %d times until the load fell, but only %d runs were started %d s later' % (desc, n1, n2, POLL + 4), s)
                    R.ok(1, 'all queued instances')
