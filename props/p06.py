"""P06: a job is never running or queued twice at once unless it asked for it."""
from common import *
QUICK = 1500
U = 1000000

def gen(rng, i, tier):
    end = rng.choice([1800, 3600, 3 * 3600, 6 * 3600]); end = rng.randint(end // 2, end)
    sc = new_sc(rng, end, firstsleep=rng.choice([None, 1, 5]), m=rng.choice([None, None, 1, 2, 5]), save=rng.choice([None, 60, 300]), lavg0=rng.choice([.1, .5, 3.]), q=rng.choice([None, None, None, 40]))
    users = rng.sample(US[:4], rng.randint(1, 2)); crash = rng.random() < .15
    for k in range(rng.choice([1, 2, 3, 5, 8])):
        u = rng.choice(users); o = []; j = dict(id=k + 1, user=u, x=[])
        d = rng.choice([0, 0, 1, 5, 30, 61, 90, 150, 400, 1000]); j['d'] = d
        cls = rng.choice(['normal', 'normal', 'serial', 'serial', 'lavg', 'lavgserial']); j['cls'] = cls
        if rng.random() < (.25 if cls == 'normal' else .12): o.append('exesev')        # (of no effect for queued jobs)
        if 'serial' in cls: o.append('serial')
        if 'lavg' in cls: o.append(rng.choice(['lavg1(1.0)', 'lavg5(1)', 'lavg(1,1,1)', 'lavg1(1),until(%d)' % rng.choice([1, 3, 10])]))
        q = rng.random()
        if q < .45: o.append(rng.choice(['serialonce', 'serialonce(1)', 'serialonce(yes)']))
        elif q < .6: o.append('serialonce(0)')
        if 'lavg' in cls and rng.random() < .4: o.append(rng.choice(['lavgonce', 'lavgonce(0)', 'lavgonce(false)', 'lavgonce(1)']))
        if rng.random() < .2 : o.append('bootrun')
        j['x'] = o
        flat = ','.join(o)
        j['sev'] = 'exesev' in o if cls == 'normal' else not any(x in o for x in ('serialonce', 'serialonce(1)', 'serialonce(yes)')) if cls == 'serial' else any(x in o for x in ('lavgonce(0)', 'lavgonce(false)'))
        j['sonce'] = any(x in o for x in ('serialonce', 'serialonce(1)', 'serialonce(yes)'))
        cmd = 'J%d%s%s' % (k + 1, ' d%d' % d if d else '', rng.choice(['', '', ' o20', ' x1']))
        if rng.random() < .65 or 'bootrun' in o or 'until' in flat:
            iv = rng.choice([1, 1, 2, 3, 5, 10]); f = ['%d-59/%d' % (rng.randint(0, iv - 1), iv) if iv > 1 else '*', '*', '*', '*', '*']
            j.update(kind='&', spec=f, iv=iv, st=int(f[0].split('-')[0]) if iv > 1 else 0, opts=o, cmd=cmd)
        else:
            Q = rng.choice([20, 45, 60, 61, 100, 300]); F = rng.choice([5, Q, 60]); j.update(kind='@', spec='%ds' % Q, opts=o + ['first(%ds)' % F], Q=Q, F=F, cmd=cmd)
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    ops = []; t = 30; last = 5
    for _ in range(rng.choice([0, 2, 4, 8, 15])):
        t += rng.expovariate(1 / rng.choice([3, 30, end / 10]))
        if t > end - 60: break
        k = rng.choice(['dyn', 'dyn', 'dyn', 'edit', 'susp', 'lavg', 'lavg', 'z', 'chld', 'restart', 'kick'] + (['crash'] if crash else []))
        o = dict(t=round(t, 3), k=k)
        if k == 'dyn': o.update(c=rng.choice(['run', 'run', 'runnow']), j=rng.randint(0, len(sc['jobs'])), u='root'); o['n'] = rng.choice([1, 1, 2, 3])
        elif k == 'edit': o.update(u=rng.choice(users), m=rng.choice(['same', 'rev', 'add']), a=rng.randint(0, 59))
        elif k == 'susp': o.update(us=rng.choice([3, 20, 200, 3600]) * U + rng.randint(0, U))
        elif k == 'lavg': o.update(v=rng.choice([.2, .5, 5., 9.]))
        elif k == 'z': o.update(u=rng.choice(users))
        elif k in ('restart', 'crash'): 
            o['gap'] = rng.choice([2, 30, 300]); o['stop'] = 1200 if k == 'restart' else 0; t += o['gap'] + o['stop'] + 10
            if t > end - 30: continue
        elif k == 'kick': o.update(u=rng.choice(users))
        ops.append(o)
    sc['ops'] = ops; sc['crashy'] = crash
    return sc

def tbl(sc, u, m=None, a=0):
    js = [j for j in sc['jobs'] if j['user'] == u]
    if m == 'rev': js = js[::-1]
    return table(js, u, '') + ('%d * * * * J900\n' % a if m == 'add' else '')

def build(sc):
    p = base(sc); tables(p, 1, sc['jobs']); args = []
    for k, f in (('firstsleep', '-l'), ('m', '-m'), ('save', '-s'), ('q', '-q')):
        if sc[k] is not None: args += [f, str(sc[k])]
    v = sc['lavg0']; p.op(2, 'loadavg', v, v, v)
    p.daemon(5, args); n = 1
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if k == 'dyn':
            for q in range(o['n']): p.fcrondyn(t + q * .01, o['u'], '%s %d' % (o['c'], o['j']))
        elif k == 'edit': p.install(t, o['u'], tbl(sc, o['u'], o['m'], o['a']))
        elif k == 'susp': p.op(t, 'suspend', o['us'])
        elif k == 'lavg': p.op(t, 'loadavg', o['v'], o['v'], o['v'])
        elif k == 'z': p.fcrontab(t, o['u'], ['-z'])
        elif k == 'chld': p.op(t, 'sig', 'daemon', 17)
        elif k == 'kick': p.fcrontab(t, o['u'], ['-l'])
        elif k == 'restart': p.op(t, 'sig', 'daemon', 15); p.daemon(t + o['stop'] + o['gap'], args, name='d%d' % n); n += 1
        elif k == 'crash': p.op(t, 'crash'); p.daemon(t + o['gap'], args, name='d%d' % n); n += 1
    return p

def check(sc, tr, R):
    fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    if any(d.end_by == 'exit' and d.st != 0 for d in tr.daemons): return
    ser = [x for x in tr.jobs if any(j['id'] == x.id and ('serial' in j['cls'] or 'bootrun' in j['x'] or sc['crashy'] or any(o['k'] == 'restart' for o in sc['ops'])) for j in sc['jobs'])]
    disturb = [(t, t + 12 * U) for t, us in tr.susp] + [(d.t, d.t + (fs + 5) * U) for d in tr.daemons] + [((d.term or d.end) - 3 * U, (d.end or tr.T) + 3 * U) for d in tr.daemons if d.term or d.end]
    # a reload waits for the running jobs: the daemon does nothing meanwhile
    longest = max([j['d'] for j in sc['jobs']] + [0])
    # fcrontab -z removes the table and installs it anew: its jobs are other jobs
    zs = [(int(o['t'] * U), o['u']) for o in sc['ops'] if o['k'] == 'z']
    disturb += [(t - 3 * U, t + 12 * U) for t, u in zs]
    skip = 0; end = 0                                        # each runnow takes the place of one or more planned runs
    for o in sc['ops']:
        if o['k'] == 'dyn' and o['c'] == 'runnow':
            end = max(end, o['t']) + o['n'] * 60 * max([j.get('iv', 1) for j in sc['jobs']]) * 2
            disturb.append((int(o['t'] * U), int((end + 63) * U)))
    edits = [int(o['t'] * U) for o in sc['ops'] if o['k'] == 'edit']; dyn = [int((o['t']) * U) for o in sc['ops'] if o['k'] == 'dyn']
    disturb += [(e - 2 * U, e + 9 * U) for e in edits]
    for j in sc['jobs']:
        xs = tr.of(j['id']); desc = '"%s"' % j['line'].replace('\n', ' / ')
        if j['sev']:
            R.ok(1, 'allowed to overlap'); 
        queuedtwice = not j['sonce'] and ('bootrun' in j['x'] or len(tr.daemons) > 1)      # may wait in the serial queue several times
        if not j['sev'] and not queuedtwice:
            for a, b in zip(xs, xs[1:]):
                if any(a.t - 3 * U <= t + 9 * U and t <= b.t and u == j['user'] for t, u in zs): continue
                if a.end is None or b.t < a.end:
                    return R.fail('overlap', 'job %s was started while its previous run (started %.1f s before) was still running' % (desc, (b.t - a.t) / U), b.t)
                R.ok(1, 'no overlap: ' + j['cls'])
        dues = None
        if j['kind'] == '&' and not sc['crashy']:
            dues = []
            for d in tr.daemons:
                sp = [d.t] + [t for t, us in tr.susp if d.t < t < (d.term or d.end or tr.T)] + [d.term or d.end or tr.T]
                for a, b in zip(sp, sp[1:]):
                    r0 = tr.real(a); m = r0 // (60 * U) * 60 * U
                    while m < r0 + b - a:
                        mi = m // U // 60 % 60
                        if m >= r0 and mi >= j['st'] and (mi - j['st']) % j['iv'] == 0: dues.append(a + m - r0)
                        m += 60 * U
        once = j['cls'] == 'serial' and j['sonce'] or 'lavg' in j['cls'] and not j['sev']
        if once and dues is not None and not sc['crashy']:
            marks = sorted(dues + [x for t in dyn for x in (t, t + U // 100, t + U // 50)] + [t for t, us in tr.susp] + [d.t for d in tr.daemons] + [e for e in edits])
            for a, b in zip(xs, xs[1:]):
                if any(a.t - 300 * U <= t + 9 * U and t <= b.t and u == j['user'] for t, u in zs): continue
                # the run b needs a due time since the previous run ended
                if a.end is not None and not any(a.end - 3 * U <= m <= b.t + U or m in edits and a.t <= m + 9 * U and m <= b.t for m in marks):
                    return R.fail('queued-twice', 'job %s was queued again while it was already queued or running: it was run at once after its previous run, without having become due since' % desc, b.t)
                R.ok(1, 'queued once')
        if dues is not None and j['cls'] in ('normal', 'serial') and not (j['cls'] == 'serial' and sc['lavg0'] is None):
            for m in dues:
                if any(a <= m <= b for a, b in disturb) or m > tr.T - 10 * U: continue
                if any(abs(m - t) < 6 * U for t in dyn): continue
                if any(x.t <= m + 6 * U and (x.end is None or x.end >= m - 4 * U) for x in xs): R.ok(1, 'run or running'); continue
                if j['cls'] == 'serial' or 'bootrun' in j['x'] or len(tr.daemons) > 1:
                    if any(x.t <= m + 6 * U and (x.end is None or x.end >= m - 4 * U) for x in ser): continue       # waits for its turn
                return R.fail('blocked', 'job %s was not run although no run of it was in progress' % desc, m)
