"""P01: jobs based on time and date run once at each matching minute, and at no other time."""
from common import *
QUICK = 900
MIN = ['faults', 'ops', 'jobs']

def gen(rng, i, tier):
    zone = rng.choice(ZONES) if rng.random() < .6 else None            # the zone of the system
    style = rng.choice(['min', 'hour', 'hour', 'hour', 'day', 'day'])
    end = {'min': rng.randint(1, 6) * 3600, 'hour': rng.randint(12, 80) * 3600, 'day': rng.randint(10, 75) * 86400}[style]
    if tier == 'thorough' and style == 'day': end *= rng.choice([1, 3, 8])
    jz = rng.choice(ZONES) if rng.random() < .5 else zone
    sc = new_sc(rng, end, rand_rt(rng, jz), zone=zone, firstsleep=rng.choice([None, None, 0, 1, 20, 45]))
    users = rng.sample(US[:4], rng.randint(1, 3))
    for k in range(rng.choice([1, 2, 4, 8, 8, 14, 40])):
        ft, fs = fields(rng, style if rng.random() < .8 else 'any')
        o = []; dayor = False; tz = None
        if rng.random() < .3: dayor = rng.random() < .7; o.append(rng.choice(['dayor', 'dayor(true)', 'dayand(0)', 'dayor(1)', 'dayand(no)'] if dayor else ['dayand', 'dayor(false)', 'dayand(yes)']))
        if rng.random() < .45: tz = jz if rng.random() < .7 and jz else rng.choice(ZONES); o.append('timezone(%s)' % tz)
        if rng.random() < .2: o.append(rng.choice(['nolog', 'mail(false)', 'exesev', 'nice(5)', 'b(0)', 'serial(0)', 'noticenotrun', 'random(0)', 'jitter(0)', 'mailto(bob)', 'runonce(0)', 'strict(0)', 'serialonce', 'lavgonce(0)', 'runatresume', 'erroronlymail', 'stdout']))
        j = dict(id=k + 1, user=rng.choice(users), kind='&', opts=o, spec=ft, sets=fs, dayor=dayor, tz=tz, cmd='J%d%s' % (k + 1, rng.choice(['', '', ' o10', ' d%d' % rng.randint(1, 50), ' x1'])))
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    rate = sum(len(j['sets'][0]) * len(j['sets'][1]) * (len(j['sets'][2]) / 31) * (len(j['sets'][3]) / 12) * min(1, len(j['sets'][4]) / 7) for j in sc['jobs']) / 86400 + 1e-9
    end = sc['end'] = int(max(3600, min(end, (1200 if tier == 'quick' else 5000) / rate)))
    sc['ops'] = noise(rng, end) if rng.random() < .5 else []
    if rng.random() < .3:                                               # the daemon is restarted
        t = rng.uniform(60, end - 30); sc['ops'] += [dict(t=round(t, 2), k='restart', gap=rng.choice([70, 200, 4000]))]
    return sc

def build(sc):
    p = base(sc); tables(p, 1, sc['jobs'])
    env = None
    from simlib import ROOT_ENV
    if sc['zone']: env = ROOT_ENV + ['TZ=' + sc['zone']]
    args = ['-l', str(sc['firstsleep'])] if sc['firstsleep'] is not None else []
    p.daemon(5, args, env=env); n = 1
    for o in sc['ops']:
        if do_noise(p, o): continue
        if o['k'] == 'restart':
            p.op(o['t'], 'sig', 'daemon', 15); p.daemon(o['t'] + o['gap'], args, name='d%d' % n, env=env); n += 1
    return p

GRACE = 4
def check(sc, tr, R):
    fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    if not tr.daemons: return
    for j in sc['jobs']:
        cal = Cal(j['sets'], j['dayor']); z = Zone(j['tz'] or sc['zone'])
        runs = tr.of(j['id'])
        spec = '%s (user %s, zone %s)' % (j['line'], j['user'], j['tz'] or sc['zone'])
        hits = {}
        for x in runs:
            m = x.r // 60000000 * 60
            d = live(tr, x.t); start = d.r / 1e6 if d else 0
            late = x.r / 1e6 - m
            if cal.match(z.label(m)) and late <= GRACE: pass
            elif d and x.r / 1e6 <= start + fs + GRACE and any(cal.match(z.label(q)) for q in range(int(start) // 60 * 60, m + 60, 60)): continue
            else:
                # a label skipped by a forward change of the clock may be served during the following hour(s)
                lab = z.label(m); gap = False
                for q in range(m - 2 * 3600, m + 60, 900):
                    a = z.off(q - 900); b = z.off(q)
                    if b > a and any(cal.match(l) for l in range(q + a, q + b, 60)) and m - q < (b - a) + 60: gap = True
                if gap and late <= GRACE: continue
                R.fail('wrong-time', 'job J%d %s ran at %s, which matches no scheduled minute' % (j['id'], spec, datetime.datetime.fromtimestamp(x.r / 1e6, z.z)), x.t); return
            hits.setdefault(m, []).append(x)
            if len(hits[m]) > 1:
                R.fail('twice', 'job J%d %s ran %d times at %s' % (j['id'], spec, len(hits[m]), datetime.datetime.fromtimestamp(m, z.z)), x.t); return
        for d in tr.daemons:
            a = d.r / 1e6 + fs + 3; b = (d.end_r / 1e6 if d.end is not None else tr.real(tr.T) / 1e6) - GRACE
            a = int(a // 60 + 1) * 60
            if a <= b and a - d.r / 1e6 < 61 + fs: pass
            l0 = z.label(a - 86400 * 0); 
            # candidate labels, converted to instants
            lo = min(z.label(a), a + z.off(a)) - 7200; hi = b + max(z.off(a), z.off(b)) + 7200
            for lab in cal.labels(int(lo) // 60 * 60, int(hi)):
                ins = z.fold(lab)
                if len(ins) == 1:
                    m = ins[0]
                    if not a <= m <= b: continue
                    # after a change of less than an hour the jobs of the skipped time are run late, up to the length of the change
                    if any(z.off(q) > z.off(q - 900) and (z.off(q) - z.off(q - 900) < 3600 or (q + z.off(q)) % 3600) and m - q <= z.off(q) - z.off(q - 900) for q in range(m // 900 * 900, m // 900 * 900 - 3600, -900)): continue
                    if m not in hits and any(x.r <= m * 1000000 + 500000 and (x.end is None or x.end_r >= m * 1000000 - 100000) for x in runs): continue
                    if m not in hits: R.fail('missed', 'job J%d %s did not run at %s' % (j['id'], spec, datetime.datetime.fromtimestamp(m, z.z)), int((m * 1e6) - (tr.real(0)))); return
                    R.ok()
                elif len(ins) == 0:
                    # skipped label: the job must run within the hour after the change
                    q = next((q for q in range(int(lab - z.off(lab - 86400)) // 900 * 900 - 7200, lab - z.off(lab - 86400) + 7200, 900) if z.off(q) > z.off(q - 900)), None)
                    if q is None: continue
                    g = z.off(q) - z.off(q - 900)
                    if not (a <= q - 60 and q + g + 60 <= b): continue
                    if not any(q <= x.r / 1e6 < q + g + 60 + GRACE for x in runs): R.fail('missed-gap', 'job J%d %s scheduled at %s, a local time skipped by a clock change, did not run within %d s after the change' % (j['id'], spec, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=lab), g)); return
                    R.ok(1, 'skipped labels')
                else:
                    if not all(a <= m <= b for m in ins): continue
                    c = sum(1 for m in ins if m in hits)
                    if c < 1 and any(x.r <= m * 1000000 + 500000 and (x.end is None or x.end_r >= m * 1000000 - 100000) for m in ins for x in runs): continue
                    if c < 1: R.fail('missed-fold', 'job J%d %s did not run at %s, a local time that occurs twice' % (j['id'], spec, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=lab))); return
                    R.cover('ambiguous labels'); R.ok()
                    if c > 1 and len(cal.s[0]) * len(cal.s[1]) < 60 * 24: R.fail('twice-fold', 'job J%d %s ran twice at %s, a local time that occurs twice' % (j['id'], spec, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=lab))); return
