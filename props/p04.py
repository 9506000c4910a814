"""P04: uptime jobs run after exactly their frequency of fcron uptime."""
import itertools
from common import *
from dst import Res as dst_Res
QUICK = 2500
U = 1000000

def dur(rng, s):
    """render s seconds in the syntax of delays"""
    k = rng.random(); out = ''
    if k < .3: return '%ds' % s
    if s % 60 == 0 and k < .5: return str(s // 60)
    r = s
    for c, w in (('m', 4 * 7 * 86400), ('w', 7 * 86400), ('d', 86400), ('h', 3600)):
        n = r // w
        if n and rng.random() < .8: out += '%d%s' % (n, c); r -= n * w
    if r:
        if r % 60 == 0 and rng.random() < .6: out += str(r // 60)
        else: out += '%ds' % r
    return out

def gen(rng, i, tier):
    scale = rng.choice(['s', 'm', 'm', 'h', 'd'])
    lo, hi, end = {'s': (5, 60, 1800), 'm': (60, 1800, 4 * 3600), 'h': (1800, 20000, 2 * 86400), 'd': (20000, 6 * 86400, 40 * 86400)}[scale]
    end = rng.randint(end // 3, end)
    sc = new_sc(rng, end, firstsleep=rng.choice([None, 1, 20, 45]), save=rng.choice([None, None, 60, 90, 300, 1000, 7200]), plain=rng.random() < .3)
    users = rng.sample(US[:4], rng.randint(1, 2))
    for k in range(rng.choice([1, 2, 4, 8])):
        def val():
            v = rng.randint(lo, hi)
            return v if rng.random() < .5 else max(60, v // 60 * 60) if lo >= 60 or rng.random() < .5 else v
        Q = val(); F = Q; o = []; pre = ''
        if rng.random() < .6:
            F = rng.choice([val(), val(), rng.randint(1, 30), 0])
            if rng.random() < .5: pre = dur(rng, F) if F else '0'
            else: o.append('%s(%s)' % (rng.choice(['first', 'f']), dur(rng, F) if F else '0'))
        if not pre and rng.random() < .2: o.append(rng.choice(['nolog', 'mail(false)', 'exesev', 'nice(5)']))
        j = dict(id=k + 1, user=rng.choice(users), kind='@', F=F, Q=Q, opts=o, spec=dur(rng, Q), cmd='J%d%s' % (k + 1, rng.choice(['', '', ' o10', ' x1', ' d1'])))
        if pre: j['line'] = '@%s %s %s' % (pre, j['spec'], j['cmd'])
        else: j['line'] = job_line(rng, j)
        sc['jobs'].append(j)
    rate = sum(1 / j['Q'] for j in sc['jobs'])
    end = sc['end'] = int(max(600, min(end, (1500 if tier == 'quick' else 5000) / rate)))
    ops = noise(rng, end) if rng.random() < .3 else []
    t = 20
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        t += rng.uniform(.5, 1) * rng.choice([30, 100, 1000, end / 4, end / 8])
        if t > end - 60: break
        k = rng.choice(['restart', 'restart', 'crash', 'crash', 'kill', 'suspend', 'suspend'] if not sc['plain'] else ['restart', 'suspend'])
        gap = rng.choice([1, 5, 30, 300, 5000, 86400])
        if k == 'suspend': ops.append(dict(t=round(t, 3), k=k, dur=rng.choice([3, 8, 20, 100, 3600, 30000]) + round(rng.random(), 3))); t += 3; continue
        ops.append(dict(t=round(t, 3), k=k, gap=gap)); t += gap + 5
    # the clock of the simulator includes neither suspends nor extensions
    sc['end'] = int(max(end, t + 100)); ops.sort(key=lambda o: o['t']); sc['ops'] = ops
    return sc

def build(sc):
    p = base(sc); tables(p, 1, sc['jobs']); args = []
    if sc['firstsleep'] is not None: args += ['-l', str(sc['firstsleep'])]
    if sc['save'] is not None: args += ['-s', str(sc['save'])]
    p.daemon(5, args); n = 1
    for o in sc['ops']:
        if do_noise(p, o): continue
        k = o['k']
        if k == 'suspend': p.op(o['t'], 'suspend', int(o['dur'] * 1e6))
        elif k == 'restart': p.op(o['t'], 'sig', 'daemon', 15); p.daemon(o['t'] + o['gap'], args, name='d%d' % n); n += 1
        else:
            if k == 'kill': p.op(o['t'], 'sig', 'daemon', 9)
            else: p.op(o['t'], 'crash')
            p.daemon(o['t'] + o['gap'], args, name='d%d' % n); n += 1
    return p

def check(sc, tr, R):
    fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    S = sc['save'] or 1800
    ds = [d for d in tr.daemons if not (d.end is not None and d.end_by == 'exit' and d.st != 0)]
    z = [o['t'] for o in sc['ops'] if o['k'] in ('z', 'usr1')]
    for j in sc['jobs']:
        for skips in itertools.product([False, True], repeat=len(ds)):
            q = dst_Res(); f = judge(sc, tr, q, j, ds, fs, S, z, skips)
            if f is None: break
            if not any(skips): first = f
            if not any(f[3]): break
        if f is None:
            R.n += q.n; R.cov.update(q.cov)
        else: R.fail(*first[:3]); return

def judge(sc, tr, R, j, ds, fs, S, z, skips):
    """None, or the violation; skips: in which incarnations the first run is the one of the job interrupted by a crash"""
    amb = [False] * len(ds)
    def fail(k, m, t): return (k, m, t, amb)
    F, Q = j['F'], j['Q']; runs = tr.of(j['id']); rem = [(F, F)]; rerun = False
    for di, d in enumerate(ds):
        s = d.t / U; e = (d.end if d.end is not None else tr.T) / U; L = e - s
        nz = sum(1 for x in z if s - 1 <= x <= e + 1)
        term = d.term / U - s if d.term is not None else L
        tol = 2.6
        xs = [(x.t / U - s) for x in runs if d.t <= x.t and (d.end is None or x.t <= d.end)]
        susp = [x / U - s for x, dd in tr.susp if s * U <= x <= e * U]
        last = 0; hist = []; ok = True               # hist: (from, to, rem at from lo, hi)
        for q, x in enumerate(xs):
            if rerun and q == 0 and x <= fs + 3:
                amb[di] = True
                if skips[di]: continue
            def fits(a): lo, hi = a; return lo - tol - len(susp) - nz * 1.5 <= x - last <= max(hi, fs if last == 0 else 0) + tol + len(susp) * 1.2 + nz * 3.2
            good = [a for a in rem if fits(a)]
            if not good:
                early = all(x - last < a[0] for a in rem)
                # a job may be early when woken within its first sleep
                return fail('early' if early else 'late', 'job %s ran %.2f s of uptime after %s, instead of %s' % (j['line'], x - last, 'the start of the daemon number %d' % di if last == 0 else 'its previous run', ' or '.join('%.0f..%.0f' % a for a in rem)), int((x + s) * U))
            hist.append((last, x, good)); rem = [(Q, Q)]; last = x; R.ok(1, 'runs')
            if di: R.cover('runs after a restart')
            if any(x - (Q if q else 0) < y < x for y in susp): R.cover('runs after a suspend')
        rem = [a for a in rem if (max(a[1], fs if last == 0 else 0) + tol + len(susp) * 1.2 + nz * 3.2 >= term - last)]
        if not rem: return fail('missed', 'job %s did not run in the %.2f s of uptime after %s' % (j['line'], term - last, 'the start of the daemon number %d' % di if last == 0 else 'its previous run'), d.end if d.end is not None else tr.T)
        hist.append((last, L, rem))
        if d.end is None: break
        if d.end_by == 'exit' and d.term is not None and d.st == 0:
            lo_t, hi_t = term, L; rerun = rerun and not xs
        else:
            lo_t = max(0, L - S - 25); hi_t = L; rerun = any(x >= lo_t - 3 for x in xs) or (rerun and not xs)
        new = []
        for a, b, rr in hist:
            ta, tb = max(a, lo_t), min(b, hi_t)
            if ta > tb: continue
            nxt = b if b != L else None
            for lo, hi in rr:
                if nxt is not None: lo = hi = nxt - a       # known by the run itself
                new.append((max(0, lo - (tb - a)) - 1.2, max(0, hi - (ta - a)) + 1.2))
        rem = new
        if not rem: return
