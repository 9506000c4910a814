"""P12: installing or removing a table takes effect in bounded time and is never lost."""
from common import *
from oracle import Cal, Zone, split
QUICK = 3000
U = 1000000
MIN = ['ops']
W = 9 * U                      # reload delay (5 s) plus some time
INF = 10 ** 15
CH = (('c', 5), ('f', 6), ('o', 7))
OFFS = [0, 0, .0001, .0003, .0005, .0008, .001, .002, .01, .5, 1, 4.9, 4.99, 4.999, 5, 5.001, 5.01, 5.2]

def star(): return [list(range(60)), list(range(24)), list(range(1, 32)), list(range(1, 13)), list(range(7))]
def rnge(l): return ','.join(map(str, l))

def chspec(rng, c, rt):
    """a specification for a job whose command stays the same while the rest of its line is edited"""
    tm = lambda z: split(Zone(z).label(rt)); mi, h, d, mo, w, y = tm(None); S = star(); F = ['*'] * 5; o = []; r = dict(k='td', dayor=False, tz=None)
    if c == 'f':
        if rng.random() < .5: q = rng.choice([1, 2, 3, 4, 7]); return dict(k='@', q=q, line='@ %d' % q)
        q = rng.choice([2, 3, 4, 6]); return dict(k='n', q=q, line='&runfreq(%d) * * * * *' % q)
    if c == 'o':
        if rng.random() < .5: return dict(k='td', dayor=False, tz=None, sets=S, line='& * * * * *')
        return dict(k='once', line=rng.choice(['&runonce * * * * *', '&runonce(true) * * * * *']))
    def put(i, l): S[i] = l; F[i] = rnge(l)
    near = lambda x, lo, hi: sorted({lo + (x - lo + a) % (hi - lo + 1) for a in (0, 1)}); far = lambda x, lo, hi: [lo + (x - lo + (hi - lo + 1) // 2) % (hi - lo + 1)]
    v = rng.choice(['all', 'all', 'min', 'hr', 'hr', 'day', 'mon', 'dow', 'dayor', 'tz', 'tz', '%', '%'])
    pick = near if rng.random() < .6 else far
    if v == 'min': S[0] = list(range(rng.choice([0, 1]), 60, 2)); F[0] = '%d-59/2' % S[0][0]
    elif v == 'hr': put(1, pick(h, 0, 23))
    elif v == 'day': put(2, pick(d, 1, 31))
    elif v == 'mon': put(3, pick(mo, 1, 12))
    elif v == 'dow': put(4, pick(w, 0, 6))
    elif v == 'dayor': put(2, near(d, 1, 31)); put(4, far(w, 0, 6)); r['dayor'] = rng.random() < .5; o += ['dayor'] if r['dayor'] else []
    elif v == 'tz':
        z = rng.choice(['Asia/Tokyo', 'America/New_York', 'Asia/Kolkata', 'Europe/Berlin', None]); hh = tm(rng.choice([z, z, 'Asia/Tokyo', 'America/New_York', None]))[1]; put(1, near(hh, 0, 23))
        r['tz'] = z; o += ['timezone(%s)' % z] if z else []
    elif v == '%':
        p = rng.choice([('hourly', 1), ('daily', 2), ('weekly', 2), ('monthly', 3), ('midhourly', 1), ('midmonthly', 3)]); r['k'] = '%'; r['p'] = p[0]
        return dict(r, line='%' + p[0] + ' ' + ' '.join(['*'] * p[1]))
    return dict(r, sets=S, line='&%s %s' % (','.join(o), ' '.join(F)))

def text(rng, k, v, n, kept, ch={}):
    L = []
    for c, key in CH: 
        if ch.get(c): L.append('%s J%d\n' % (ch[c]['line'], 100 + k * 10 + key))
    for q in range(n): L.append(rng.choice(['* * * * * J%d\n', '& * * * * * J%d\n', '*/1 * * * * J%d o5\n']) % (k * 1000 + v * 10 + q))
    for q in kept:
        o = rng.choice(['', '', 'mail(no)', 'noticenotrun', 'nice(3)', 'nolog'])
        if q[0] == 'a': L.append('@%s %d J%d\n' % (o, q[1], 100 + k * 10 + 1))
        elif q[0] == 'n': L.append('&%s * * * * * J%d\n' % ('runfreq(%d)%s' % (q[1], ',' + o if o else ''), 100 + k * 10 + 2))
        elif q[0] == 't': L.append('&%s * * * * * J%d\n' % (o, 100 + k * 10 + 3))
    rng.shuffle(L)
    if rng.random() < .3: L.insert(0, rng.choice(['MAILTO=root\n', '# a comment\n', 'A=b\nC=d\n']))
    return ''.join(L)

def gen(rng, i, tier):
    users = rng.sample(['alice', 'bob', 'root', 'carol'], rng.choice([1, 2, 3])); usr1 = rng.random() < .3
    sc = new_sc(rng, 0, users=users, usr1=usr1, daemon_may_die=True, start=rng.choice([5, 5, 60]))
    kept = {u: [x for x in [('a', rng.choice([2, 3, 7, 11])), ('n', rng.choice([2, 3, 5])), ('t', 0)] if rng.random() < .6] for u in users}; sc['kept'] = kept
    specs = {u: {c: [chspec(rng, c, sc['rt']) for _ in range(rng.choice([2, 3]))] if rng.random() < .4 else [] for c, _ in CH} for u in users}
    ops = []; ver = {u: -1 for u in users}; t = 1.; nd = 1; sec0 = (-sc['rt']) % 60
    def op(t, u, rm=False):
        ver[u] += 1; v = ver[u]; n = rng.randint(1, 3); k = users.index(u) + 1
        o = dict(t=round(t, 4), k='rm' if rm else 'inst', u=u, v=v, by=rng.choice(['self', 'self', 'root']), how=rng.choice(['-', '-', 'file']))
        if not rm and rng.random() < .12: o['how'] = 'file'; o['reset'] = 1
        if not rm: o['n'] = n; o['kept'] = [list(q) for q in kept[u]] if rng.random() < .9 else []; o['ch'] = {c: rng.choice(specs[u][c]) for c, _ in CH if specs[u][c] and rng.random() < .85}; o['text'] = text(rng, k, v, n, o['kept'], o['ch'])
        else: o['n'] = 0; o['kept'] = []
        ops.append(o)
    for u in users:
        if rng.random() < .8: op(1 + rng.random(), u)
    t = 8.
    for _ in range(rng.choice([1, 2, 4, 7])):
        c = rng.random(); t += rng.choice([rng.uniform(1, 12), rng.uniform(20, 200), rng.uniform(60, 700)])
        if c < .25: t = (t - sec0) // 60 * 60 + sec0 + rng.choice([-5, -5.0005, -.0005, -.0002, -.001, 0, .0001, .0003, .0006, .001, -4.9995])       # at a minute
        elif c < .4 and sc['start'] == 60: t = 60 + rng.choice([-5, -.002, -.001, -.0005, -.0002, 0, .0001, .0002, .0003, .0005, .0008, .001, .0015, .003])
        b = t
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            x = max(2, b + rng.choice(OFFS + [rng.uniform(0, 6)])); op(x, rng.choice(users), rng.random() < .2); t = max(t, x)
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(dict(t=round(max(2, b + rng.choice(OFFS + [rng.uniform(-1, 6)])), 4), k='sig', s=rng.choice([1, 1, 17, 12, 18] + ([10, 10] if usr1 else []))))
        for _ in range(rng.choice([0, 0, 0, 1])): ops.append(dict(t=round(max(2, b + rng.choice(OFFS + [rng.uniform(-1, 6)])), 4), k=rng.choice(['dynls', 'list', 'z0']), u=rng.choice(users)))
        if rng.random() < .2:
            x = b + rng.choice(OFFS + [rng.uniform(0, 60)]); g = rng.choice([.001, .5, 3, 100]); ops += [dict(t=round(x, 4), k='stop'), dict(t=round(x + g, 4), k='start', n=nd)]; nd += 1; t = max(t, x + g)
            if rng.random() < .5: op(max(2, x + rng.choice([0, g, g + rng.choice(OFFS), g - .001, g + .0005])), rng.choice(users), rng.random() < .2)
    sc['end'] = int(max([o['t'] for o in ops] + [t, sc['start']]) + 260)
    sc['ops'] = sorted([o for o in ops if o['k'] != 'z0'], key=lambda o: o['t'])
    return sc

def build(sc):
    p = base(sc); p.daemon(sc['start'], ['-l', '1'], name='d0')
    for o in sc['ops']:
        t, k, u = o['t'], o['k'], o.get('u')
        if k in ('inst', 'rm'):
            name = 'i%s%dx' % (u[0], o['v']); by = u if o['by'] == 'self' else 'root'; a = [] if by == u else ['-u', u]
            if k == 'rm': o['tag'] = p.fcrontab(t, by, a + ['-r'], name=name)
            elif o['how'] == '-': o['tag'] = p.fcrontab(t, by, a + ['-'], stdin=o['text'] or '', name=name)
            else:
                fn = '/home/alice/t_%s%d' % (u, o['v']); p.file0(fn, o['text'], UID[by], GID[by], '644'); o['tag'] = p.fcrontab(t, by, a + (['-n'] if o.get('reset') else []) + [fn], name=name)
        elif k == 'sig': p.op(t, 'sig', 'daemon', o['s'])
        elif k == 'stop': p.op(t, 'sig', 'daemon', 15)
        elif k == 'start': p.daemon(t, ['-l', '1'], name='d%d' % o['n'])
        else: do_noise(p, o)
    return p

def check(sc, tr, R):
    stops = [o['t'] * U for o in sc['ops'] if o['k'] in ('stop', 'start')] + [sc['start'] * U]
    usr1 = [o['t'] * U for o in sc['ops'] if o['k'] == 'sig' and o['s'] == 10]
    live = [d for d in tr.daemons if not (d.end_by == 'exit' and d.term is None and d.end - d.t < U)]
    for d in tr.daemons:
        if d.end_by == 'exit' and d.term is None and not any(q is not d and q.t <= d.t + 10000 and (q.end is None or q.end > d.t) for q in tr.daemons): return R.fail('died', 'the daemon %s exits by itself with status %s' % (d.name, d.st), d.end)
        if d.end_by == 'signal': return R.fail('died', 'the daemon %s died of signal %s' % (d.name, d.st & 127), d.end)
    for ui, u in enumerate(sc['users']):
        k = ui + 1; H = []; name = 'user %s' % u
        for o in sc['ops']:
            if o.get('u') != u or o['k'] not in ('inst', 'rm'): continue
            r = tr.runs.get(o['tag'])
            if r is None: continue
            if r.end is None: return R.fail('fcrontab-hangs', 'fcrontab of %s started at %.3f s does not end' % (name, r.t / U), r.t)
            rmnone = o['k'] == 'rm' and 'has no fcrontab' in r.err
            over = any(q is not o and q.get('u') == u and q['k'] in ('inst', 'rm') and tr.runs.get(q['tag']) and tr.runs[q['tag']].t <= r.end and (tr.runs[q['tag']].end or INF) >= r.t for q in sc['ops'])
            if r.st and not rmnone and not over: return R.fail('refused', 'fcrontab of %s (version %d) failed with status %s: %s' % (name, o['v'], r.st, r.err[-200:]), r.end)
            H.append(Obj(v=o['v'], t=r.t, end=r.end, n=o['n'], kept=set({'a': 1, 'n': 2, 't': 3}[q[0]] for q in o['kept']), ch=o.get('ch', {}), o=o, reset=o.get('reset'), fail=bool(r.st))); R.ok(1, 'request')
        none = Obj(v=-1, t=0, end=0, n=0, kept=set(), ch={}, o=None, reset=None, fail=False)
        H.sort(key=lambda h: h.end)
        def overl(x, h): return x is h or (x is not none and x.t <= h.end and x.end >= h.t)
        def states(t0, t1):
            S = [none]; ev = sorted([(h.t, 0, h.v, h) for h in H] + [(h.end, 1, h.v, h) for h in H], key=lambda x: x[:3]); acc = None
            for t, what, _, h in ev:
                if t > t0 and acc is None: acc = list(S)
                if t > t1: break
                S = S + [h] if what == 0 else ([x for x in S if overl(x, h)] if not h.fail else S)
                if acc is not None: acc += [x for x in S if x not in acc]
            return acc if acc is not None else list(S)
        forgot = lambda a, b: any(h.reset and h.t < b and h.end > a - W for h in H)          # told to forget the former table (fcrontab -n)
        ids = lambda h: set(k * 1000 + h.v * 10 + q for q in range(h.n))
        vs = lambda S: '/'.join(sorted(set('none' if not x.n else 'v%d' % x.v for x in S)))
        xs = [x for x in tr.jobs if x.id // 1000 == k and x.id >= 1000]
        byid = {q: h for h in H for q in ids(h)}
        for x in xs:
            h = byid.get(x.id)
            if h is None or h.t > x.t: return R.fail('phantom', 'job J%d of %s runs before its installation' % (x.id, name), x.t)
            S = states(x.t - W - U, x.t)
            d = next((d for d in live if d.t <= x.t and (d.end is None or d.end >= x.t)), None)
            R.ok(1, 'job of a current version')
            if h not in S and not (d and x.t - d.t < W): return R.fail('old-runs', 'job J%d (version %d) of %s still runs, the current version is %s for more than %d s' % (x.id, h.v, name, vs(S), W / U), x.t)
        for d in live:
            e = d.end if d.end is not None else tr.T
            if d.term is not None: e = min(e, d.term)
            off = tr.real(d.t) - d.t; m = (tr.real(d.t) // (60 * U) + 1) * 60 * U
            while m - off + 7 * U < e:
                t = m - off; m += 60 * U
                if t < d.t + 9 * U or any(abs(s - t) < 8 * U for s in usr1): continue
                S = states(t - W, t + 1000); T = states(t - W, t + 5 * U); got = set(x.id for x in xs if t - 1000 <= x.t < t + 7 * U)
                sn = [x for x in xs if t - 1000 <= x.t < t + 7 * U]
                if len(S) == 1 and len(T) == 1:
                    h = S[0]; R.ok(1, 'minute of %s' % ('a version' if h.n else 'no table'))
                    if got != ids(h): return R.fail('wrong-version', 'in the minute at %.1f s the jobs of %s are %s, expected those of %s: %s' % (t / U, name, sorted(got), vs(S), sorted(ids(h))), t)
                    for c, key in CH[::2]:
                        q = h.ch.get(c)
                        if not q or q['k'] != 'td' or any(abs(s - t) < 8 * U for s in stops): continue
                        z = Zone(q['tz']); lb = z.label((m - 60 * U) // U); R.ok(1, 'minute of an edited line')
                        if z.off((m - 60 * U) // U - 86400) != z.off((m - 60 * U) // U + 86400): continue
                        y = [x for x in tr.of(100 + k * 10 + key) if t - 1000 <= x.t < t + 7 * U]; ex = 1 if Cal(q['sets'], q['dayor']).match(lb) else 0
                        if len(y) != ex: return R.fail('edited-line', 'in the minute at %.1f s job J%d of %s, whose line is "%s" since version %d, ran %d times instead of %d' % (t / U, 100 + k * 10 + key, name, q['line'], h.v, len(y), ex), t)
                    if len(sn) != len(got): return R.fail('twice', 'in the minute at %.1f s a job of %s runs twice' % (t / U, name), t)
                else: R.cover('minute of a change')
                if all(3 in h.kept for h in T) and not forgot(t, t + 5 * U):
                    z = [x for x in tr.of(100 + k * 10 + 3) if t - 1000 <= x.t < t + 7 * U]; R.ok(1, 'kept job over a change' if len(T) > 1 else 'kept job')
                    if len(z) != 1 and not any(abs(s - t) < 8 * U for s in stops): return R.fail('kept-lost' if not z else 'kept-twice', 'job J%d of %s, in all versions, ran %d times in the minute at %.1f s' % (100 + k * 10 + 3, name, len(z), t / U), t)
            # a line which is edited starts as a new one
            for i, h in enumerate(H):
                if h.fail or not d.t < h.t < e: continue
                nx = min([e] + [x.t for x in H if x is not h and x.end > h.t]); P = states(h.t - W, h.t - 1)
                if len(P) != 1 or nx <= h.end + W or any(h.t - W < s < h.end + W for s in stops + usr1): continue
                kl = [(c, key, dict(k='@' if c == 'a' else 'n', q=z, line='%s(%d)' % (c, z)), dict(line='the same') if h.reset and key in P[0].kept else None) for c, z in sc['kept'][u] for key in [{'a': 1, 'n': 2, 't': 3}[c]] if c != 't' and key in h.kept and (h.reset or key not in P[0].kept)]
                for c, key, q, p in [(c, key, h.ch.get(c), P[0].ch.get(c)) for c, key in CH] + kl:
                    if not q or p == q and not h.reset or (p and p.get('k') == q['k'] == 'once' and not h.reset): continue
                    lim = min([nx] + [s for s in stops + usr1 if s > h.t]); J = 100 + k * 10 + key; zs = [x.t for x in tr.of(J) if x.t >= h.t and x.t < lim]
                    mb = lambda t: int((tr.real(t) // (60 * U) + 1) * 60 * U - tr.real(t) + t)      # the next minute
                    def late(a, b, what):
                        got = [x for x in zs if x > h.end + W]
                        if got and got[0] < a - U: return R.fail('edited-line', 'job J%d of %s, whose line became "%s" at %.1f s (it was %s), already ran at %.1f s' % (J, name, q['line'], h.t / U, p and p['line'], got[0] / U), got[0])
                        if b < lim - 2 * U and not any(a - U <= x <= b for x in zs): return R.fail('edited-line', 'job J%d of %s, whose line became "%s" at %.1f s (it was %s), did not run %s (runs: %s)' % (J, name, q['line'], h.t / U, p and p['line'], what, ['%.1f' % (x / U) for x in zs[:4]]), b)
                        R.ok(1, 'first run of an edited line: ' + q['k'])
                    if q['k'] == '@': r = late(h.t + q['q'] * 60 * U, h.end + W + q['q'] * 60 * U, 'after %d minutes' % q['q'])
                    elif q['k'] == 'n': r = late(mb(h.t) + (q['q'] - 1) * 60 * U, mb(h.end + W) + (q['q'] - 1) * 60 * U + 3 * U, 'in the minute no. %d' % q['q'])
                    elif q['k'] == '%': r = late(h.t, mb(h.end + W) + 3 * U, 'in the next minute')
                    elif q['k'] == 'once':
                        r = None
                        if p and mb(h.t - U) <= h.end + W: continue
                        r = late(h.t, mb(h.end + W) + 3 * U, 'once')
                        got = [x for x in zs if x > h.end + W]
                        if len(got) > 1: return R.fail('edited-line', 'job J%d of %s, whose line became "%s" at %.1f s, ran %d times' % (J, name, q['line'], h.t / U, len(got)), got[1])
                    else: continue
                    if R.viol: return
            # kept jobs keep their schedule
            F = {q[0]: q[1] for q in sc['kept'][u]}
            for c, key in (('a', 1), ('n', 2)):
                if c not in F: continue
                zs = [x for x in tr.of(100 + k * 10 + key) if d.t <= x.t < (d.end or INF)]; f = F[c] * 60 * U
                for y, z in zip(zs, zs[1:]):
                    if any(y.t - 9 * U < s < z.t + f for s in usr1): continue
                    if not all(key in h.kept for h in states(y.t - W, z.t + U)) or forgot(y.t, z.t + U): continue
                    ch = len(states(y.t, z.t)) > 1; R.ok(1, 'schedule kept over a change' if ch else 'schedule kept')
                    if abs(z.t - y.t - f) > 3 * U: return R.fail('schedule', 'job J%d of %s, every %d minutes and unchanged by the edits, ran at %.1f s and then at %.1f s' % (100 + k * 10 + key, name, F[c], y.t / U, z.t / U), z.t)
                # and run at all
                s0 = max([d.t] + [h.t for h in H if h.t < e and key not in h.kept and h.end > d.t]); last = zs[-1].t if zs else None
                if all(key in h.kept for h in states(e - f - 70 * U - W, e)) and e - d.t > f + 80 * U and not forgot(e - f - 80 * U, e) and not any(e - f - 80 * U < s < e for s in usr1):
                    R.ok(1, 'kept job runs')
                    if last is None or e - last > f + 75 * U: return R.fail('kept-lost', 'job J%d of %s, every %d minutes, does not run any more (last at %s)' % (100 + k * 10 + key, name, F[c], last and '%.1f s' % (last / U)), e)
