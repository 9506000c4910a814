"""P07: serial jobs respect the limit of simultaneous runs and their queue order."""
from common import *
QUICK = 1200
U = 1000000
MIN = ['faults', 'ops', 'jobs']

def gen(rng, i, tier):
    end = rng.choice([1800, 3600, 2 * 3600, 5 * 3600]); end = rng.randint(end // 2, end)
    sc = new_sc(rng, end, firstsleep=rng.choice([None, 1, 5]), m=rng.choice([None, None, 1, 2, 3, 5]), save=rng.choice([None, 60, 300]), q=rng.choice([200, 500, 3000]))
    users = rng.sample(US[:4], rng.randint(1, 3)); nj = rng.choice([2, 3, 5, 8, 12, 20, 35])
    load = rng.choice([.3, .8, 1.2, 3.0])                # demand relative to the capacity
    m = sc['m'] or 1
    for k in range(nj):
        u = rng.choice(users); o = ['serial']; j = dict(id=k + 1, user=u)
        cls = 'serial' if rng.random() < .75 else rng.choice(['lavgserial', 'normal'])
        j['cls'] = cls
        if cls == 'normal': o = ['exesev(1)']
        if cls == 'lavgserial': o.append(rng.choice(['lavg1(5)', 'lavg(5,5,5)', 'lavg5(5.5)']))
        j['once'] = 0
        if cls == 'serial' and rng.random() < .3: o.append('serialonce'); j['once'] = 1
        if cls == 'lavgserial' : o.append('lavgonce(0)')
        iv = rng.choice([1, 2, 3, 5, 10, 20, 30])
        d = int(min(900, load * m * iv * 60 / nj * rng.uniform(.3, 1.7)))
        if rng.random() < .2: d = rng.choice([0, 1])
        j['d'] = d
        if rng.random() < .2: o.append('nice(%d)' % rng.choice([3, 10]))
        cmd = 'J%d%s%s' % (k + 1, ' d%d' % d if d else '', rng.choice(['', '', ' o20', ' x1', ' k9' if d else '']))
        if rng.random() < .6:
            st = rng.randint(0, iv - 1) if rng.random() < .5 else 0
            f = ['%d-59/%d' % (st, iv) if iv > 1 else '*', '*', '*', '*', '*']
            j.update(kind='&', spec=f, iv=iv, st=st if iv > 1 else 0, opts=o, cmd=cmd)
        else:
            Q = iv * 60 + rng.choice([0, 0, 1, 7]); F = rng.choice([Q, 60, 61, rng.randint(40, 900)]); j.update(kind='@', spec='%ds' % Q, opts=o + ['first(%ds)' % F], Q=Q, F=F, cmd=cmd)
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    ops = []
    for _ in range(rng.choice([0, 0, 2, 5, 12])):
        t = rng.uniform(60, end - 100); k = rng.choice(['run', 'run', 'run', 'chld', 'edit', 'noise', 'lavg'])
        o = dict(t=round(t, 3), k=k)
        if k == 'run': o.update(j=rng.randint(0, nj + (nj if rng.random() < .3 else 0)), n=rng.choice([1, 1, 2, 4]))
        elif k == 'edit': o.update(u=rng.choice(users), a=rng.randint(0, 59))
        elif k == 'noise': o = noise(rng, end, 1)[0]; 
        elif k == 'lavg': o.update(v=rng.choice([.2, .2, 8.]))
        if o['k'] == 'usr1': continue
        ops.append(o)
    if len(users) > 1 and rng.random() < .5:             # a table is removed while its jobs run and wait
        u = rng.choice(users); t = round(rng.uniform(60, end - 60), 3)
        ops = [o for o in ops if not (o['k'] == 'edit' and o['u'] == u)] + [dict(t=t, k='drop', u=u)]
    sc['ops'] = sorted(ops, key=lambda o: o['t'])
    return sc

def build(sc):
    p = base(sc); tables(p, 1, sc['jobs']); args = []
    for k, f in (('firstsleep', '-l'), ('m', '-m'), ('save', '-s'), ('q', '-q')):
        if sc[k] is not None: args += [f, str(sc[k])]
    p.op(2, 'loadavg', .2, .2, .2); p.daemon(5, args)
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if k == 'run':
            o['_ls'] = p.fcrondyn(t - .05, 'root', 'ls')     # tells which job has that identifier
            for q in range(o['n']): p.fcrondyn(t + q * .005, 'root', 'run %d' % o['j'])
        elif k == 'chld': p.op(t, 'sig', 'daemon', 17)
        elif k == 'edit': p.install(t, o['u'], table(sc['jobs'], o['u']) + '%d * * * * J900\n' % o['a'])
        elif k == 'drop': p.fcrontab(t, o['u'], ['-r'])
        elif k == 'lavg': p.op(t, 'loadavg', o['v'], o['v'], o['v'])
        else: do_noise(p, o)
    return p

def check(sc, tr, R):
    if not tr.daemons: return
    d0 = tr.daemons[0]; m = sc['m'] or 1; fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    edits = [o['t'] * U for o in sc['ops'] if o['k'] in ('edit', 'drop')]
    for cls in ('serial', 'lavgserial'):
        js = {j['id']: j for j in sc['jobs'] if j['cls'] == cls}
        if not js: continue
        ev = []
        xs = [x for x in tr.jobs if x.id in js]
        for x in xs:
            ev.append((x.t, 2, 'start', x)); 
            if x.end is not None: ev.append((x.end, 1, 'end', x))
        run = set()
        if cls == 'serial':
            for j in js.values():
                if j['kind'] == '&':
                    mm = tr.real(d0.t) // (60 * U) * 60 * U; off = tr.real(d0.t) - d0.t
                    while mm - off < tr.T:
                        if mm - off > d0.t and (mm // U // 60 % 60 - j['st']) % j['iv'] == 0 and mm // U // 60 % 60 >= j['st']:
                            t = mm - off
                            if t < d0.t + fs * U + U: t = d0.t + fs * U
                            ev.append((t, 0, 'due', j['id']))
                        mm += 60 * U
                else:
                    # the base is the second in which the daemon loaded the table
                    t = None
                    k = 0
                    while True:
                        t = (tr.real(d0.t) // U * U - (tr.real(d0.t) - d0.t)) + (j['F'] + k * j['Q']) * U
                        if t > tr.T: break
                        # the schedule is computed from the previous due time
                        ev.append((max(t, d0.t + fs * U), 0, 'due', j['id'])); k += 1
            for o in sc['ops']:
                if o['k'] == 'run':
                    ls = tr.runs.get(o['_ls']); jj = parse_ls(ls.out).get(o['j']) if ls else None
                    if jj in js: ev += [(int(o['t'] * U) + q * 5000, 0, 'due', jj) for q in range(o['n'])]
        gone = {}
        for o in sc['ops']:
            if o['k'] == 'drop': gone[o['u']] = o['t'] * U; ev += [(o['t'] * U, -1, 'drop', o['u']), (o['t'] * U + 7 * U, 3, 'gone', o['u'])]
        ev = [e for e in ev if not (e[2] == 'due' and js[e[3]]['user'] in gone and e[0] > gone[js[e[3]]['user']] + 7 * U)]
        ev.sort(key=lambda e: (e[0], e[1])); q = []; free = None; full = False
        lastend = {}; laststart = {}; fix = [e for e in edits]
        for t, _, k, x in ev:
            if len(q) >= sc['q'] - 5 or k == 'due' and sum(1 for e in q if e[1] == x) > 240: full = True     # jobs may be refused from here on: property P08
            if full and k == 'due': continue
            # promptness
            if cls == 'serial' and not full:
                hard = [e for e in q if not e[2]]
                if len(run) < m and hard:
                    f = max(free if free is not None else 0, min(e[0] for e in hard))
                    if t - f > 5 * U and not any(f - 7 * U <= e <= t for e in edits):
                        return R.fail('idle-place', 'serial job J%d, due since %.1f s, was not started although only %d serial jobs were running (limit %d)' % (hard[0][1], (t - hard[0][0]) / U, len(run), m), t)
            if k == 'drop': q = [[e[0], e[1], e[2] or js[e[1]]['user'] == x] for e in q]; R.cover('table removed with %s of its jobs waiting' % min(3, sum(1 for e in q if js[e[1]]['user'] == x)))
            elif k == 'gone': q = [e for e in q if js[e[1]]['user'] != x]
            elif k == 'due':
                j = js[x]
                if j['user'] in gone and t >= gone[j['user']]: q.append([t, x, True]); continue
                if j['once'] and any(e[1] == x and not e[2] for e in q) or j['once'] and any(y.id == x for y in run) and True:
                    # refused, unless it ends or starts in the same second
                    amb = True
                    if any(e[1] == x for e in q): amb = False
                    if amb: q.append([t, x, True])
                    R.ok(1, 'serialonce: already queued')
                else: q.append([t, x, bool(j['once'] and (t - lastend.get(x, -1e12) < 4 * U or any(e[1] == x for e in q)))])
            elif k == 'start':
                run.add(x)
                if len(run) > m:
                    return R.fail('limit', '%d %s jobs are running at once (%s), the limit is %d' % (len(run), 'serial' if cls == 'serial' else 'serial load-average', ', '.join('J%d' % y.id for y in run), m), t)
                R.ok(1, 'limit %s m=%d' % (cls, m))
                if cls == 'serial' and not full:
                    mine = [e for e in q if e[1] == x.id]
                    if not mine: return R.fail('not-due', 'serial job J%d was started without having become due' % x.id, t)
                    # prefer a certain entry that is first in the queue
                    e = mine[0]
                    before = [f for f in q if not f[2] and f[0] < e[0] - 2 * U and not any(y.id == f[1] and t <= y.t < t + U for y in xs)]
                    if before and not any(before[0][0] - 7 * U < y for y in edits):
                        # an optional entry may have been refused: then the next one counts
                        return R.fail('order', 'serial job J%d (due at %.1f s) was started before J%d (due at %.1f s)' % (x.id, e[0] / U, before[0][1], before[0][0] / U), t)
                    R.ok(1, 'order')
                    q.remove(e)
                    if js[x.id]['once']: q = [f for f in q if not (f[1] == x.id and f[2])]
            elif k == 'end':
                run.discard(x); lastend[x.id] = t; free = t
                R.cover('queue length %s' % (0 if not q else '1-9' if len(q) < 10 else '10-29' if len(q) < 30 else '30+'))
