"""P10: installing an fcrontab is atomic and, once reported, durable."""
from common import *
QUICK = 5000
U = 1000000
MIN = ['faults', 'ops']
SPOOL = '/var/spool/fcron/'
EIO, ENOSPC, EDQUOT, ENOMEM, EINTR, EACCES, EMFILE, EROFS = 5, 28, 122, 12, 4, 13, 24, 30
ESYS = ['open', 'write', 'rename', 'read', 'fchown', 'fchmod', 'unlink', 'close', 'fdatasync', 'malloc', 'fork']
RAWSYS = ('write', 'read', 'open')

def ids(k, v, n): return [k * 1000 + v * 10 + i for i in range(n)]

def text(rng, k, v, n):
    L = ['# %s version %d\n' % ('x' * rng.choice([0, 1, 30]), v)]
    if n and rng.random() < .3: L.append('MAILTO=""\n')
    for x in ids(k, v, n):
        L.append(rng.choice(['* * * * * J%d\n', '& * * * * * J%d\n', '*/1 * * * * J%d o5\n', '& 0-59 * * * * J%d\n']) % x)
        if rng.random() < .3: L.append('# %s\n' % ('c' * rng.choice([3, 200, 900])))
    if rng.random() < .2: L += ['# %s %d\n' % ('f' * 200, q) for q in range(rng.choice([5, 20, 45]))]
    if rng.random() < .1: L[-1] = L[-1].rstrip('\n')
    return ''.join(L)

def afault(rng, who, t0, t1, nsys):
    c = rng.random()
    if c < .3: return dict(who=who, sys='*', frm=rng.randint(1, nsys), cnt=1, kind=rng.choice('Kk'), arg=0, t0=t0, t1=t1)
    if c < .55: return dict(who=who, sys=rng.choice(['*', '*', '*', 'rename', 'write', 'open', 'unlink', 'close']), frm=1, cnt=1, kind=rng.choice('Cc'), arg=rng.randint(1, 10 ** 6), t0=t0, t1=t1)
    if c < .65: return dict(who=who, sys=rng.choice(['write', 'read']), frm=rng.randint(1, 6), cnt=rng.choice([1, 3, 1000]), kind='S', arg=rng.choice([1, 7, 100]), t0=t0, t1=t1)
    s = rng.choice(ESYS); e = {'write': [EIO, ENOSPC, ENOSPC, EDQUOT], 'open': [EIO, ENOSPC, EMFILE, EACCES, EROFS], 'malloc': [ENOMEM], 'fork': [11]}.get(s, [EIO, ENOSPC, EROFS])
    return dict(who=who, sys=s, frm=rng.choice([1, 1, 2, 3, 4, rng.randint(1, 20)]), cnt=rng.choice([1, 1, 1, 2, 1000]), kind='E', arg=rng.choice(e), t0=t0, t1=t1)

def gen(rng, i, tier):
    users = rng.sample(['alice', 'bob', 'root'], rng.choice([1, 1, 2]))
    sc = new_sc(rng, 0, daemon_may_die=True, users=users, up=rng.random() < .9, commit=rng.choice([0, 5, 5, 30]))
    ops = []; ver = {u: 0 for u in users}; t = 30.; nd = 1
    for u in users:
        if rng.random() < .85: n = rng.randint(1, 4); ops.append(dict(t=1 + .3 * users.index(u), k='inst', u=u, v=0, n=n, how='-', text=text(rng, users.index(u) + 1, 0, n)))
        else: ver[u] = -1
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        t += rng.choice([rng.uniform(.02, 1), rng.uniform(2, 20), rng.uniform(20, 130), rng.uniform(100, 200)])
        u = rng.choice(users); ver[u] += 1; v = ver[u]; c = rng.random()
        if c < .68: n = rng.randint(1, 4)
        elif c < .78: n = 0
        else: n = None
        if n is None: o = dict(t=round(t, 3), k='rm', u=u, v=v, n=0)
        else: o = dict(t=round(t, 3), k='inst', u=u, v=v, n=n, how=rng.choice(['-', '-', 'file', 'edit']), text=text(rng, users.index(u) + 1, v, n))
        o['by'] = rng.choice(['self', 'self', 'self', 'root'])
        ops.append(o); name = 'i%s%dx' % (u[0], v)
        c = rng.random()
        if rng.random() < .05:                                        # a flush fails, then the power is cut
            sc['faults'].append(dict(who=rng.choice([name, name, 'd*']), sys='fdatasync', frm=rng.choice([1, 1, 1, 2, 3]), cnt=rng.choice([1, 1, 5]), kind='E', arg=rng.choice([EIO, ENOSPC]), t0=round(t, 3), t1=round(t + 60, 3)))
            ops.append(dict(t=round(t + rng.choice([rng.uniform(.1, 2), rng.uniform(.5, 70)]), 4), k='crash', key=rng.randint(1, 10 ** 6)))
        elif c < .45:
            f = afault(rng, name + ('' if o.get('how') == 'edit' else '*'), None, None, rng.choice([100, 200, 400]))
            if f['kind'] in 'Cc': f['frm'] = rng.randint(1, 400 if f['sys'] == '*' else 8)
            sc['faults'].append(f)
        elif c < .6 and sc['up']:
            a = t + rng.choice([0, 3, 50]); f = afault(rng, 'd*', round(a, 3), round(a + rng.choice([5, 20, 70]), 3), 120)
            if f['kind'] in 'Cc': f['frm'] = rng.randint(1, 120 if f['sys'] == '*' else 6)
            sc['faults'].append(f)
        elif c < .68: ops.append(dict(t=round(t - .01, 3), k='disk', v=rng.choice([0, 0, 1, 10, 100, 500, 1500]), m=rng.choice([1, 1, 2]), l=rng.choice([1, 10, 100])))
        elif c < .76: ops.append(dict(t=round(t + rng.choice([rng.uniform(0, .05), rng.uniform(.05, 8), rng.uniform(5, 70)]), 4), k='crash', key=rng.randint(1, 10 ** 6)))
        elif c < .8: ops.append(dict(t=round(t + rng.choice([rng.uniform(0, .05), rng.uniform(.05, 8)]), 4), k='kill'))
        for _ in range(rng.choice([0, 1, 2])): ops.append(dict(t=round(t + rng.choice([rng.uniform(0, .03), rng.uniform(0, 10), rng.uniform(0, 100)]), 4), k=rng.choice(['cat', 'cat', 'list']), u=rng.choice(users)))
        if rng.random() < .5: ops.append(dict(t=round(t + rng.uniform(5, 90), 3), k='start', n=nd)); nd += 1
        if rng.random() < .1: ops.append(dict(t=round(t + rng.uniform(5, 90), 3), k='stop'))
    t = max([o['t'] for o in ops] + [t]) + 220
    ops.append(dict(t=round(t - 5, 3), k='disk', v=-1, m=1, l=0)); ops.append(dict(t=round(t, 3), k='stop')); ops.append(dict(t=round(t + 5, 3), k='start', n=nd))
    for u in users: ops += [dict(t=round(t + 100, 3), k='cat', u=u), dict(t=round(t + 101, 3), k='list', u=u)]
    sc['clean'] = t; sc['end'] = int(t + 200); sc['ops'] = sorted(ops, key=lambda o: o['t'])
    for f in sc['faults']:
        if f['t1'] is None or f['t1'] > t - 6: f['t0'] = f['t0'] or 0; f['t1'] = t - 6
    return sc

def build(sc):
    p = base(sc); p.params['commit'] = '%d %d' % (sc['commit'] * U, max(sc['commit'], 30) * U)
    if sc['up']: p.daemon(5, ['-l', '1'], name='d0')
    nl = 0
    for o in sc['ops']:
        t, k, u = o['t'], o['k'], o.get('u')
        if k == 'inst' or k == 'rm':
            name = 'i%s%dx' % (u[0], o['v']); by = u if o.get('by', 'self') == 'self' else 'root'; a = [] if by == u else ['-u', u]
            if k == 'rm': o['tag'] = p.fcrontab(t, by, a + ['-r'], name=name)
            elif o['how'] == '-': o['tag'] = p.fcrontab(t, by, a + ['-'], stdin=o['text'] or '', name=name)
            elif o['how'] == 'file':
                fn = '/home/alice/t_%s%d' % (u, o['v']); p.file0(fn, o['text'], UID[by], GID[by], '644'); o['tag'] = p.fcrontab(t, by, a + [fn], name=name)
            else:
                q = sc['users'].index(u) * 100 + o['v']; p.file0('/plan/edit%d' % q, o['text'], 0, 0, '644'); o['tag'] = p.fcrontab(t, by, a + ['-e'], name=name, env=['PATH=/usr/bin:/bin', 'HOME=/', 'USER=' + by, 'LOGNAME=' + by, 'EDITOR=/usr/bin/ed', 'EDN=%d' % q, 'EDS=1100'], stdin='i\n')
        elif k == 'disk':
            p.op(t, 'disk', o['v'], o['m'])
            if o['l']: p.op(t + o['l'], 'disk', -1)
        elif k == 'crash': p.op(t, 'crash', o['key'])
        elif k == 'kill': p.op(t, 'sig', 'daemon', 9)
        elif k == 'stop': p.op(t, 'sig', 'daemon', 15)
        elif k == 'start': p.daemon(t, ['-l', '1'], name='d%d' % o['n'])
        elif k == 'cat': p.op(t, 'cat', SPOOL + u + '.orig')
        elif k == 'list': o['tag'] = p.fcrontab(t, u, ['-l'], name='l%d' % nl); nl += 1
    for f in sc['faults']: p.fault(f['who'], f['sys'], f['frm'], f['cnt'], f['kind'], f['arg'], f['t0'], f['t1'])
    return p

def check(sc, tr, R):
    hits = {}
    for e in tr.faults: hits.setdefault(e['p'].split('.')[0], []).append(e)
    disk = [(o['t'] * U, (o['t'] + (o['l'] or 10 ** 6)) * U) for o in sc['ops'] if o['k'] == 'disk' and o['v'] >= 0]
    INF = 10 ** 15
    for u in sc['users']:
        k = sc['users'].index(u) + 1; H = []
        for o in sc['ops']:
            if o.get('u') != u or o['k'] not in ('inst', 'rm'): continue
            r = tr.runs.get(o['tag'])
            if r is None: continue
            name = r.name; fl = hits.get(name, [])
            crashed = next((c for c in tr.crashes if c >= r.t and (r.end is None or c <= r.end)), None)
            if r.end is None or r.st & 127 or crashed: out = 'unknown'
            elif r.st == 0: out = 'ok'
            else: out = 'fail'
            soft = out == 'fail' and (o['k'] == 'rm' or not o['n'] or any(f['sys'] in ('fork', 'malloc', 'fdatasync') for f in fl))
            H.append(Obj(v=o['v'], t=r.t, end=crashed if crashed else r.end if r.end is not None else INF, out=out, soft=soft, ids=set(ids(k, o['v'], o['n'])), text=o.get('text'), o=o, src=o.get('text') if o['k'] == 'inst' else None, tag=o['tag']))
        none = Obj(v=-9, t=0, end=0, out='ok', soft=False, ids=set(), text=None, src=None, o=None, tag=None)
        H.sort(key=lambda h: h.t)
        def states(t0, t1, force):
            """versions that may be the current one at some time of [t0, t1]"""
            S = [none]; ev = []
            for h in H: ev += [(h.t, 0, h), (h.end, 1, h)]
            ev.sort(key=lambda x: (x[0], x[1])); acc = None
            for t, what, h in ev:
                if t > t0 and acc is None: acc = list(S)
                if t > t1: break
                if what == 0: S = S + [h]
                elif h.out == 'ok': S = [x for x in S if overl(x, h)]
                elif h.out == 'fail' and force and not h.soft: S = [x for x in S if x is not h]
                if acc is not None: acc += [x for x in S if x not in acc]
            return acc if acc is not None else list(S)
        def overl(x, h): return x is h or (x is not none and x.t <= h.end and x.end >= h.t)
        name = 'user %s' % u
        def vs(S): return '/'.join(sorted(set('none' if x.src is None else 'v%d' % x.v for x in S)))
        # ---- the source
        def source(data, t0, t1, what):
            S = states(t0, t1, False); R.ok(1, 'source')
            if any((x.src or None) == data or (x.src == '' and data == '') for x in S): return True
            full = any(x.src == data for x in H) or data is None
            R.fail('source-lost' if full else 'source-torn', '%s of %s shows %s, expected %s' % (what, name, ('no table' if data is None else 'an old or other version') if full else 'a mixture or a part of a version: %r' % data[-80:], vs(S)), t1); return False
        for e in tr.files:
            if e.get('path') == SPOOL + u + '.orig':
                if not source(e.get('data') if 'err' not in e else None, e['t'], e['t'], 'the source'): return
        for o in sc['ops']:
            if o['k'] == 'list' and o['u'] == u:
                r = tr.runs.get(o['tag'])
                if r is None or r.st != 0 or hits.get(r.name): continue
                data = r.out
                if 'could not read file' in r.err: continue
                if 'has no fcrontab' in r.err: data = None
                if not source(data, r.t, r.end, 'fcrontab -l'): return
        # ---- the table in force
        xs = [x for x in tr.jobs if x.id // 1000 == k]; byid = {}
        for h in H:
            for q in h.ids: byid[q] = h
        for x in xs:
            h = byid.get(x.id)
            if h is None: return R.fail('phantom', 'job J%d of %s was never in a table' % (x.id, name), x.t)
            if h.t > x.t: return R.fail('phantom', 'job J%d of %s ran before its table was installed' % (x.id, name), x.t)
            if h.out == 'fail' and not h.soft and x.t > h.end + 2 * U: return R.fail('failed-runs', 'job J%d of %s runs although fcrontab reported the failure of its installation (exit status %s)' % (x.id, name, tr.runs[h.tag].st >> 8), x.t)
            R.ok(1, 'job of a possible version')
        for d in tr.daemons:
            e = d.end if d.end is not None else tr.T
            ff = [f for f in hits.get(d.name, [])]
            # a fork or exec fault makes jobs disappear; only the versions are checked then
            t = (tr.real(d.t) // (60 * U) + 1) * 60 * U - (tr.real(d.t) - d.t); prev = None
            while t + 12 * U < e:
                if t > d.t + 4 * U:
                    got = set(x.id for x in xs if t - U <= x.t < t + 12 * U)
                    hs = [h for h in [none] + H if h.t <= t + 12 * U]
                    bad = [f for f in ff if f['t'] < t + 12 * U]; dt = [c for c in disk if c[0] < t + 12 * U and c[1] > d.t]
                    ok = any(h.ids == got for h in hs)
                    if not ok:
                        # reloaded in the very minute: two versions
                        ok = any(h.ids | g.ids == got for h in hs for g in hs)
                    if not ok and (bad or dt) and any(got < h.ids for h in hs): ok = True      # jobs not started for lack of resources
                    if not ok: return R.fail('mixture', 'the jobs of %s run in the minute at %.1f s, %s, are not those of one version' % (name, t / U, sorted(got)), t)
                    # the version loaded is one that is possibly current; the old one may stay for the reload delay
                    cand = [h for h in hs if h.ids == got]
                    sigf = [1 for h in H if hits.get(tr.runs[h.tag].name) and d.t - 30 * U < h.t < t]
                    slow = bool(bad or sigf or dt or any(c for c in tr.crashes if d.t - 60 * U < c < t))
                    stopping = d.term is not None and d.term < t + 12 * U
                    lo = d.t if slow else max(d.t, t - 75 * U)
                    if bad: lo = 0
                    S = states(lo, t + 12 * U, True)
                    if cand and not stopping and not any(c.v == x.v for c in cand for x in S) and not (not got and any(not x.ids for x in S)) and not ((bad or dt or any(abs(h.t - t) < 7 * U for h in H)) and not got):
                        return R.fail('wrong-version', 'in the minute at %.1f s the jobs of %s are those of %s, expected %s' % (t / U, name, vs(cand), vs(S)), t)
                    R.ok(1, 'minute of one version'); R.cover('%s %s' % ('slow' if slow else 'prompt', 'new' if got != prev else 'same')); prev = got
                t += 60 * U
        # ---- after the faults: the last reported version is in force
        d = tr.daemons[-1] if tr.daemons else None
        if d and d.t >= sc['clean'] * U and d.end is None:
            S = states(d.t, tr.T, True); got = set(x.id for x in xs if d.t + 62 * U < x.t < d.t + 130 * U)
            R.ok(1, 'final version')
            if not any(x.ids == got for x in S):
                return R.fail('final', 'after a clean restart the jobs of %s are %s, expected those of %s' % (name, sorted(got), ' or '.join('v%d (%s, %s)' % (x.v, x.out, sorted(x.ids)) for x in S)), tr.T)
