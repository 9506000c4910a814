"""P03: %-lines run exactly once per period."""
from common import *
QUICK = 600
GRACE = 4
LY = dict(hourly=1, midhourly=1, daily=2, middaily=2, nightly=2, weekly=2, midweekly=2, monthly=3, midmonthly=3)
IG = dict(mins=0, hours=1, days=2, mons=3, dow=4)

def star(i): return ('*', list(range(FR[i][0], FR[i][1] + (1 if i != 4 else 0))))

def gen(rng, i, tier):
    zone = rng.choice(ZONES) if rng.random() < .4 else None
    style = rng.choice(['hour', 'day', 'day', 'week', 'month'])
    end = {'hour': rng.randint(3, 40) * 3600, 'day': rng.randint(4, 40) * 86400, 'week': rng.randint(20, 90) * 86400, 'month': rng.randint(60, 500) * 86400}[style]
    if tier == 'thorough' and rng.random() < .3: end *= 4
    sc = new_sc(rng, end, rand_rt(rng, zone), zone=zone, firstsleep=rng.choice([None, None, 1, 20, 45]))
    users = rng.sample(US[:4], rng.randint(1, 3))
    for k in range(rng.choice([1, 2, 4, 6, 10])):
        key = rng.choice({'hour': ['hourly', 'midhourly', 'mins', 'hours', 'hourly'], 'day': ['daily', 'middaily', 'nightly', 'hours', 'days', 'daily', 'midhourly'], 'week': ['weekly', 'midweekly', 'days', 'dow', 'daily', 'weekly'], 'month': ['monthly', 'midmonthly', 'mons', 'dow', 'days', 'weekly', 'midweekly']}[style])
        o = []; tz = None; rnd = False; dayor = False
        if key in LY:
            n = LY[key]; F = [rfield(rng, q) for q in range(n)]
            F = [star(q) if rng.random() < .15 else F[q] for q in range(n)]
            spec = [f[0] for f in F]; sets = [f[1] for f in F] + [star(q)[1] for q in range(n, 5)]
        else:
            F = [rfield(rng, q) for q in range(5)]
            if key == 'mins': F[1] = star(1) if rng.random() < .6 else F[1]
            if rng.random() < .7: F[3] = star(3) if key != 'mons' else F[3]
            c = rng.random()
            if c < .4 and key not in ('days',): F[2] = star(2)
            elif c < .8 and key != 'dow': F[4] = star(4)
            if key == 'dow': F[2] = star(2); F[3] = star(3)
            dayor = key in ('mins', 'hours', 'days') and rng.random() < .15
            # some field above the keyword must not match always
            q0 = IG[key]; full = lambda q: len(set(F[q][1])) >= {0: 60, 1: 24, 2: 31, 3: 12, 4: 7}[q]
            cand = [q for q in range(q0, 5)]
            if dayor: o.append('dayor')
            def anynon():
                for q in cand:
                    if q in (2, 4) and dayor: continue
                    if not full(q): return True
                return dayor and not full(2) and not full(4) and q0 <= 2
            for _ in range(50):
                if anynon(): break
                q = rng.choice(cand); F[q] = rfield(rng, q)
            if not anynon(): continue
            spec = [f[0] for f in F]; sets = [f[1] for f in F]
        if rng.random() < .3: tz = rng.choice(ZONES); o.append('timezone(%s)' % tz)
        if rng.random() < .25: rnd = True; o.append(rng.choice(['random', 'random(true)', 'random(1)']))
        if rng.random() < .3: o.append(rng.choice(['nolog', 'mail(false)', 'exesev', 'nice(5)', 'noticenotrun', 'strict(0)', 'serialonce', 'lavgonce(0)', 'jitter(255)', 'jitter(30)']))        # (jitter is of no effect for such lines)
        j = dict(id=k + 1, user=rng.choice(users), kind='%', key=key, opts=o, spec=spec, sets=sets, dayor=dayor, tz=tz, rnd=rnd, cmd='J%d%s' % (k + 1, rng.choice(['', '', ' o10', ' x1'])))
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    if not sc['jobs']: return gen(rng, i, tier)
    sc['ops'] = [o for o in noise(rng, end) if o['k'] not in ('usr1', 'z')] if rng.random() < .4 else []
    t = 60; unit = {'hour': 3600, 'day': 86400, 'week': 7 * 86400, 'month': 31 * 86400}[style]
    for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
        if t + 100 > end: break
        t = rng.uniform(t, min(end - 60, t + rng.choice([.5, 3, 10]) * unit))
        g = rng.choice([1, 5, 70, 1000, int(unit * rng.random()), int(3 * unit * rng.random())]) + 1
        sc['ops'].append(dict(t=round(t, 2), k='restart', gap=g)); t += g + rng.choice([5, 70, 500, 20000])
    sc['ops'].sort(key=lambda o: o['t'])
    return sc

def build(sc):
    from simlib import ROOT_ENV
    p = base(sc); tables(p, 1, sc['jobs'])
    env = ROOT_ENV + ['TZ=' + sc['zone']] if sc['zone'] else None
    args = ['-l', str(sc['firstsleep'])] if sc['firstsleep'] is not None else []
    p.daemon(5, args, env=env); n = 1
    for o in sc['ops']:
        if do_noise(p, o): continue
        if o['k'] == 'restart':
            p.op(o['t'], 'sig', 'daemon', 15); p.daemon(o['t'] + o['gap'], args, name='d%d' % n, env=env); n += 1
    return p

def period(key, lab):
    if key == 'hourly': return lab // 3600
    if key == 'midhourly': return (lab + 1800) // 3600
    if key == 'daily': return lab // 86400
    if key in ('middaily', 'nightly'): return (lab + 43200) // 86400
    d = lab // 86400
    if key == 'weekly': return (d + 3) // 7               # 1970-01-01 is a Thursday; weeks start on Monday
    if key == 'midweekly': return d // 7
    mi, h, dd, mo, w, y = split(lab)
    if key == 'monthly': return y * 12 + mo
    return y * 12 + mo + (1 if dd >= 15 else 0)

class Spans:
    """contiguous intervals of a *s keyword: the period of a label is the first label of its interval"""
    def __init__(self, key, sets, dayor):
        self.q = IG[key]; self.unit = 60 if key == 'mins' else 3600 if key == 'hours' else 86400
        self.c = Cal([set(range(60)) if self.q > 0 else sets[0], set(range(24)) if self.q > 1 else sets[1], set(range(1, 32)) if self.q > 2 else sets[2], set(range(1, 13)) if self.q > 3 else sets[3], sets[4]], dayor)
        self.memo = {}; self.first = {}
    def m(self, u):
        if u not in self.memo: self.memo[u] = self.c.match(u * self.unit)
        return self.memo[u]
    def period(self, lab):
        u = lab // self.unit; u0 = u
        if not self.m(u): return None
        while u not in self.first and self.m(u - 1) and u0 - u < 200000: u -= 1
        r = self.first.get(u, u)
        for x in range(u, u0 + 1): self.first[x] = r
        return r

def check(sc, tr, R):
    fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    if not tr.daemons: return
    ups = [(d.r / 1e6, d.end_r / 1e6 if d.end is not None else tr.real(tr.T) / 1e6) for d in tr.daemons]
    a0, b0 = ups[0][0], ups[-1][1]
    for j in sc['jobs']:
        cal = Cal(j['sets'], j['dayor']); z = Zone(j['tz'] or sc['zone']); key = j['key']
        sp = None if key in LY else Spans(key, j['sets'], j['dayor'])
        memo = {}
        def per(l):
            u = l // 1800
            if u not in memo: memo[u] = period(key, l)
            return memo[u]
        if sp is not None: per = sp.period
        trs = []
        for q in range(int(a0) // 86400 * 86400 - 86400, int(b0) + 2 * 86400, 86400):
            if z.off(q) != z.off(q + 86400): trs.append(q)
        def neartr(t): return any(q - 10800 <= t <= q + 86400 + 10800 for q in trs)
        spec = '%s (zone %s)' % (j['line'], j['tz'] or sc['zone'])
        def fmt(t): return datetime.datetime.fromtimestamp(t, z.z).strftime('%a %F %T')
        byp = {}
        for x in tr.of(j['id']):
            t = x.r / 1e6; m = int(t // 60 * 60)
            st = next((s for s, e in ups if s <= t <= e), None)
            if st is None: R.fail('while-down', 'job %s ran at %s' % (spec, fmt(t))); return
            if neartr(t): R.cover('run near a change of the clock'); byp.setdefault(per(z.label(m)), []).append(t); continue
            late = t <= st + fs + GRACE
            mm = m
            if not cal.match(z.label(m)) and late:
                mm = next((q for q in range(m, int(st) // 60 * 60 - 60, -60) if cal.match(z.label(q))), None)
                if mm is None: R.fail('wrong-time', 'job %s ran at %s, which it does not allow' % (spec, fmt(t)), x.t); return
            elif not cal.match(z.label(m)): R.fail('wrong-time', 'job %s ran at %s, which it does not allow' % (spec, fmt(t)), x.t); return
            elif not j['rnd'] and t > m + GRACE and not late: R.fail('late', 'job %s ran at %s, not at the start of a minute' % (spec, fmt(t)), x.t); return
            byp.setdefault(per(z.label(mm)), []).append(t)
        for p, ts_ in byp.items():
            if len(ts_) > 1 and not any(neartr(t) for t in ts_): R.fail('twice', 'job %s ran %d times in one period: %s' % (spec, len(ts_), ', '.join(fmt(t) for t in ts_))); return
        # allowed minutes while it is up, by period
        A = {}; n = 0
        for (s, e) in ups:
            lo = s + fs + 3; hi = e - GRACE
            if hi <= lo: continue
            off0 = z.off(int(lo))
            for lab in cal.labels(int(lo + min(off0, z.off(int(hi)))) // 60 * 60 - 7200, int(hi + max(off0, z.off(int(hi)))) + 7200):
                pp = per(lab)
                if pp in A: continue
                ins = z.fold(lab)
                if len(ins) != 1 or not lo <= ins[0] <= hi: continue
                A[pp] = ins[0]
        for p, m in sorted(A.items()):
            if neartr(m): continue
            rs = byp.get(p, [])
            if not j['rnd']:
                if not rs: R.fail('missed', 'job %s did not run in its period with %s, although fcron was up' % (spec, fmt(m))); return
                if rs[0] > m + GRACE: R.fail('not-asap', 'job %s ran at %s while it could have been run at %s' % (spec, fmt(rs[0]), fmt(m))); return
                R.ok(1, key)
            else:
                # the contiguous interval which holds m: fcron must have been up from before it to its end
                b = m; k = 0
                while per(z.label(b - 60)) == p and cal.match(z.label(b - 60)) and k < 50000: b -= 60; k += 1
                first = not any(per(l) == p for l in cal.labels(z.label(b) - (32 * 86400 if key in LY and LY[key] == 3 else 8 * 86400 if 'week' in key else 86400), z.label(b))) if key in LY else True
                f = m; k = 0
                while per(z.label(f + 60)) == p and cal.match(z.label(f + 60)) and k < 50000: f += 60; k += 1
                up = any(s + fs + 60 < b - 60 and f + 60 + GRACE < e for s, e in ups)
                if not (first and up) or neartr(b) or neartr(f): continue
                if not rs: R.fail('missed-random', 'job %s did not run in its interval from %s to %s' % (spec, fmt(b), fmt(f))); return
                if rs[0] < b and any(s <= rs[0] <= s + fs + 64 for s, e in ups): continue
                if not (b - .5 <= rs[0] <= f + 60 + GRACE): 
                    R.fail('random-outside', 'job %s ran at %s, outside its first interval from %s to %s' % (spec, fmt(rs[0]), fmt(b), fmt(f))); return
                R.ok(1, key + ' random')
