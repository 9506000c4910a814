"""P19: fcrondyn commands do exactly what they say."""
from common import *
QUICK = 2500
U = 1000000
MIN = ['ops', 'jobs']
OWN = ['alice', 'bob', 'carol', 'root']
SIGS = {'hup': 1, 'int': 2, 'quit': 3, 'kill': 9, 'alrm': 14, 'term': 15, 'usr1': 10, 'usr2': 12, 'cont': 18, 'stop': 19, 'tstp': 20}

def gen_job(rng, n, u):
    k = rng.choice(['amp', 'amp', 'far', 'far', 'at', 'at', 'serial', 'serial', 'lavg', 'lavg', 'serialat'])
    o = ['mail(no)']; d = rng.choice([0, 0, 2, 30, 200]); j = dict(id=n, user=u, k=k)
    if k in ('amp', 'at', 'far') and rng.random() < .3: o.append('exesev'); j['sev'] = 1
    if k.startswith('serial'): o.append('serial'); d = rng.choice([1, 5, 20, 60, 200])
    if k.startswith('serial') and rng.random() < .3: o.append('serialonce'); j['once'] = 1
    if k == 'lavg':
        o.append(rng.choice(['lavg1(0.5)', 'lavg5(0.5)', 'lavg(0.5,0.5,0.5)'])); d = rng.choice([0, 3, 40])
        if rng.random() < .3: o.append('lavgonce(0)'); j['sev'] = 1
        elif rng.random() < .3: o.append('serial'); j['ser'] = 1
        if rng.random() < .5: j['until'] = rng.choice([2, 3, 5]); o.append('until(%dh)' % j['until'])
        if rng.random() < .3: j['strict'] = rng.choice([0, 1]); o.append('strict(%d)' % j['strict'])
    if rng.random() < .1: o.append('nice(5)')
    j['d'] = d
    if k == 'amp': j['n'] = rng.choice([1, 2, 5, 10, 20]); j['b'] = rng.randint(0, j['n'] - 1); s = '& %d-59/%d * * * *' % (j['b'], j['n']) if j['n'] > 1 else '& * * * * *'
    elif k in ('far', 'serial', 'lavg'): s = '& %d %d * * *' % (rng.randint(0, 59), rng.randint(0, 23)); j['hm'] = s.split()[1:3]
    else: j['Q'] = rng.choice([70, 100, 300, 301, 900, 5000]); s = '@ %ds' % j['Q']
    if rng.random() < .3: s = s[0] + ','.join(o) + s[1:]; pre = ''; post = ''
    else: s = s[0] + ','.join(o) + s[1:]; pre = post = ''
    j['line'] = '%s J%d d%d%s' % (s, n, d, rng.choice(['', '', ' #', ' ' + 'z' * rng.choice([5, 150, 190, 300])]))
    return j

def gen(rng, i, tier):
    sc = new_sc(rng, 400, m=rng.choice([1, 1, 2, 3])); n = 0
    for u in OWN:
        for _ in range(rng.choice([0, 1, 2, 3, 4])): n += 1; sc['jobs'].append(gen_job(rng, n, u))
    if not n: n = 1; sc['jobs'].append(gen_job(rng, 1, 'alice'))
    sc['n'] = n; t = 30.; bur = rng.random() < .3
    for _ in range(rng.choice([3, 8, 16, 25])):
        t += rng.choice([2.5, 3, 4, 8, 20]) + rng.choice([0, .3, .77])
        a = rng.choice(['ls', 'ls_exeq', 'ls_exeq', 'ls_serialq', 'ls_lavgq', 'detail', 'detail', 'run', 'run', 'run', 'run', 'runnow', 'runnow', 'kill', 'kill', 'renice', 'lavg'])
        o = dict(t=round(t, 3), a=a, j=rng.randint(1, n), by=rng.choice(['root', 'own', 'own']))
        if a == 'run' and rng.random() < .3: o['rep'] = rng.choice([2, 3, 6])
        if a == 'kill': o['s'] = rng.choice([rng.choice(list(SIGS)), rng.choice(list(SIGS)).upper(), rng.choice(['1', '15', '9', '10', '64']), 'Term', 'Kill', rng.choice(['0', '0', '65', '-1', '4294967305'])])
        if a == 'renice': o['v'] = rng.choice([0, 1, 5, 19, 20, -1, -20, 10, rng.choice([21, -21, 22, -100, 200])])
        if a.startswith('ls'): o['who'] = rng.choice([None, None, 'own', 'alice', 'bob'])
        if a == 'lavg': o['v'] = rng.choice([.1, .1, 3.])
        if a in ('kill', 'renice', 'ls_exeq') and rng.random() < .5: sc['ops'].append(dict(t=round(t, 3), a='run', j=o['j'], by='root', pf=int(rng.random() < .2))); t += 3.1; o['t'] = round(t, 3)
        if a in ('ls_serialq',) and rng.random() < .6:
            S = [j['id'] for j in sc['jobs'] if j['k'].startswith('serial')]
            for _ in range(rng.choice([2, 3, 5])):
                if S: sc['ops'].append(dict(t=round(t, 3), a='run', j=rng.choice(S), by='root')); t += 2.6
            o['t'] = round(t, 3)
        sc['ops'].append(o)
        if rng.random() < .05: t += 5; sc['ops'].append(dict(t=round(t, 3), a='edit', j=0, u=rng.choice(OWN), drop=rng.randint(1, n), add=rng.random() < .6)); t += 9
        if t > 500: break
    sc['end'] = int(t + rng.choice([40, 400, 1500]))
    return sc

def build(sc):
    p = base(sc); p.daemon(0.5, ['-l', '5', '-m', str(sc['m'])]); p.op(.1, 'loadavg', 3, 3, 3)
    drop = set()
    for k, u in enumerate(OWN):
        L = [j for j in sc['jobs'] if j['user'] == u]
        if L: p.fcrontab(1 + k * .4, 'root', ['-u', u, '-'], stdin=''.join(j['line'] + '\n' for j in L))
    # identifiers are not known when the plan is made: a job is named by its rank in the order of the tables
    for k, o in enumerate(sc['ops']):
        t = o['t']; a = o['a']
        if a == 'lavg': p.op(t, 'loadavg', o['v'], o['v'], o['v']); continue
        if a == 'edit':
            drop.add(o['drop']); L = [j['line'] for j in sc['jobs'] if j['user'] == o['u'] and j['id'] not in drop] + (['& 0 0 2 2 * J%d' % (800 + k)] if o['add'] else [])
            if any(j['user'] == o['u'] for j in sc['jobs']): p.fcrontab(t, 'root', ['-u', o['u'], '-'], stdin=''.join(l + '\n' for l in L))
            continue
        j = [x for x in sc['jobs'] if x['id'] == o['j']]
        if o.get('pf'): p.fault('d0', 'pipe', 1, 100, 'E', 24, t - .2, t + 1.8)
        own = j[0]['user'] if j else 'root'; by = 'root' if o['by'] == 'root' else own; o['_by'] = by
        o['_b'] = p.fcrondyn(t - .1, 'root', 'ls'); o['_a'] = p.fcrondyn(t + 1.2, 'root', 'ls')
        if a.startswith('ls'):
            w = o['who']; w = own if w == 'own' else w
            if w and by != 'root': w = by
            o['_w'] = w if w else None if by == 'root' else by
            c = a + (' ' + w if w else '')
        elif a == 'kill': c = 'kill %s %d' % (o['s'], o['j'])
        elif a == 'renice': c = 'renice %d %d' % (o['v'], o['j'])
        else: c = '%s %d' % (a, o['j'])
        o['_c'] = c; o['_t'] = [p.fcrondyn(t + q * .15, by, c) for q in range(o.get('rep', 1))]
    return p

def rows(out):
    """rows of a listing, as dicts of its fields"""
    R = []; H = None
    for l in out.split('\n'):
        if re.match(r'^ID .*\|CMD$', l): H = [x.strip() for x in l.split('|')]; continue
        if H is None or not re.match(r'^\d+ *\|', l): continue
        v = l.split('|', len(H) - 1); d = dict(zip(H, [x.strip() for x in v])); d['ID'] = int(d['ID'])
        m = re.match(r'J(\d+)\b', d.get('CMD', '')); d['J'] = int(m.group(1)) if m else None
        if 'SCHEDULE' in d:
            try: d['next'] = int(datetime.datetime.strptime(d['SCHEDULE'], '%Y-%m-%d %H:%M:%S').replace(tzinfo=datetime.timezone.utc).timestamp())
            except ValueError: d['next'] = None
        R.append(d)
    return R

def after(j, t):
    """the scheduled time of a job which follows its scheduled time t"""
    if j.get('Q'): return t + j['Q']
    if 'n' in j:
        t = t // 60 * 60 + 60
        while not ((t // 60 % 60) >= j['b'] and (t // 60 % 60 - j['b']) % j['n'] == 0): t += 60
        return t
    return t + 86400

def check(sc, tr, R):
    J = {j['id']: j for j in sc['jobs']}; base_r = None
    LV = [(.1, 3.)] + [(q['t'], q['v']) for q in sorted(sc['ops'], key=lambda q: q['t']) if q['a'] == 'lavg']
    def load_in(a, b):
        '''the loads between two instants'''
        r = {v for t, v in LV if a / U <= t <= b / U}; z = [v for t, v in LV if t <= a / U]
        return r | ({z[-1]} if z else set())
    # the daemon does not know the process of a job when it had no pipe for it
    pf = lambda q: any(o.get('pf') and o['t'] - .3 < q.t / U < o['t'] + 1.9 for o in sc['ops'])
    live = {j['id'] for j in sc['jobs']}; fuzzy = []
    edits = [o for o in sc['ops'] if o['a'] == 'edit' and any(j['user'] == o['u'] for j in sc['jobs'])]
    dropped = {}
    cum = set()
    for o in sorted((o for o in sc['ops'] if o['a'] == 'edit'), key=lambda o: o['t']):
        cum.add(o['drop'])
        if not any(j['user'] == o['u'] for j in sc['jobs']): continue
        for d in cum:
            if d in J and J[d]['user'] == o['u']: dropped.setdefault(d, o['t'])
    starts = {}
    for jb in tr.jobs: starts.setdefault(jb.id, []).append(jb)
    cmds = []
    dead = False
    for o in sc['ops']:
        if '_c' not in o: continue
        b = tr.runs.get(o['_b']); c = [tr.runs.get(x) for x in o['_t']]; a = tr.runs.get(o['_a'])
        if b is None or a is None or any(x is None or x.end is None for x in c): continue
        o['rb'] = rows(b.out or ''); o['ra'] = rows(a.out or ''); o['out'] = c[0].out or ''; o['real'] = tr.real(c[0].t) // U; o['pids'] = c
        ids = {r['ID']: r['J'] for r in o['rb']}; o['J'] = ids.get(o['j']); cmds.append(o)
    run_t = {}
    for o in cmds:
        if o['a'] in ('run', 'runnow') and o['J'] in J and (o['_by'] == 'root' or J[o['J']]['user'] == o['_by']): (run_t.setdefault(o['J'], []) if o['J'] in J else []).append((o['t'], o['a'], o.get('rep', 1)))
    near = lambda t: any(abs(e['t'] - t) < 8 and e['t'] - 1 < t for e in edits)
    for o in cmds:
        t = o['t']; T = int(t * U); what = "'%s' of %s" % (o['_c'], o['_by'])
        if near(t) or near(t + 2): continue
        # ---- the listing of all jobs, before and after
        for rs, tt in ((o['rb'], t - .1), (o['ra'], t + 1.2)):
            seen = [r['J'] for r in rs if r['J'] and r['J'] < 800]
            want = sorted(i for i in J if not (i in dropped and dropped[i] < tt))
            if sorted(seen) != want: return R.fail('list', 'ls of root at %.1f s lists J%s; the tables hold J%s' % (tt, sorted(seen), want), T)
            if len({r['ID'] for r in rs}) != len(rs): return R.fail('id', 'ls at %.1f s shows an identifier twice: %s' % (tt, [r['ID'] for r in rs]), T)
            if not all(r.get('USER') == J[r['J']]['user'] for r in rs if r['J'] in J): return R.fail('user', 'ls at %.1f s shows a wrong owner: %s' % (tt, [(r['J'], r['USER']) for r in rs]), T)
            nx = [r.get('next') for r in rs]
            if None in nx: return R.fail('next', 'ls at %.1f s shows no next execution: %s' % (tt, rs), T)
            if nx != sorted(nx): return R.fail('sorted', 'ls at %.1f s is not ordered by next execution: %s' % (tt, [r['SCHEDULE'] for r in rs]), T)
            R.ok(1, 'full listings')
        R.ok(1, o['a'])
        nb = {r['J']: r['next'] for r in o['rb']}; na = {r['J']: r['next'] for r in o['ra']}
        rt = o['real']
        x = o['J']
        # running instances: sure and possible ones
        def running(i, lo, hi):
            s = [q for q in starts.get(i, []) if q.t < lo and (q.end is None or q.end > hi)]
            m = [q for q in starts.get(i, []) if q.t < hi and (q.end is None or q.end > lo)]
            return s, m
        if o['a'] == 'ls':
            rs = rows(o['out']); w = o['_w']
            want = sorted(r['J'] for r in o['rb'] if w is None or r['J'] >= 800 or J[r['J']]['user'] == w); got = sorted(r['J'] for r in rs)
            if w is not None: want = [z for z in want if z < 800]; got = [z for z in got if z < 800]
            if got != want: return R.fail('ls', '%s lists J%s rather than J%s' % (what, got, want), T)
            nx = [r['next'] for r in rs]
            if nx != sorted(nx): return R.fail('sorted', '%s is not ordered by next execution' % what, T)
            for r in rs:
                if r['J'] in nb and r['next'] != nb[r['J']] and r['next'] != na.get(r['J']): return R.fail('ls', '%s shows J%d with %s' % (what, r['J'], r['SCHEDULE']), T)
        elif o['a'] == 'ls_exeq':
            rs = rows(o['out']); w = o['_w']
            got = sorted((r['J'], int(r.get('PID', 0))) for r in rs)
            if w is None: got += sorted((None, int(m)) for m in re.findall(r'Job no more in an fcrontab: pid (\d+)', o['out']))
            sure = []; poss = []
            for i in J:
                if w is not None and J[i]['user'] != w: continue
                s, m = running(i, T - int(1.5 * U), T + int(1.5 * U))
                n_ = lambda q: (None if i in dropped and dropped[i] < t else i, q.pid, pf(q))
                sure += [n_(q) for q in s]; poss += [n_(q) for q in m]
            if w is not None: sure = [q for q in sure if q[0] is not None]
            poss += [(q[0], 0) for q in poss] + [(q[0], -1) for q in poss]
            poss = {q[:2] for q in poss}
            for q in sure:
                if q[:2] not in got and not (q[2] and (q[0], -1) in got): return R.fail('exeq', '%s does not show J%s (pid %d), which is running: %r' % (what, q[0], q[1], o['out'][-400:]), T)
            for q in got:
                if q not in poss: return R.fail('exeq', '%s shows J%s with pid %d, which is not running' % (what, q[0], q[1]), T)
            if sure: R.cover('listings of running jobs')
        elif o['a'] == 'ls_serialq':
            rs = rows(o['out']); w = o['_w']; L = [(int(r['INDEX']), r['J']) for r in rs]
            if [q[0] for q in L] != sorted(q[0] for q in L): return R.fail('serialq', '%s is not ordered by index: %s' % (what, L), T)
            if w is None:
                if [q[0] for q in L] != list(range(len(L))): return R.fail('serialq', '%s shows the indexes %s' % (what, [q[0] for q in L]), T)
                nxt = [q for q in tr.jobs if q.id in J and J[q.id]['k'].startswith('serial') and q.t > T + U // 2]
                if not any(e['t'] > t - 10 for e in edits) and not [q for q in tr.jobs if q.id in J and J[q.id]['k'].startswith('serial') and abs(q.t - T) <= U]:
                    k = min(len(L), len(nxt))
                    if [q.id for q in nxt[:k]] != [q[1] for q in L[:k]]:
                        # with several at once, those started in the same second may be exchanged
                        if sc['m'] == 1 or sorted(q.id for q in nxt[:k]) != sorted(q[1] for q in L[:k]): return R.fail('serialq', '%s shows J%s; the serial jobs started next are J%s' % (what, [q[1] for q in L], [q.id for q in nxt[:k]]), T)
                    if k: R.cover('listings of queued serial jobs'); R.ok(k, 'serial queue entries')
            for q in L:
                if not J.get(q[1], {}).get('k', '').startswith('serial'): return R.fail('serialq', '%s shows J%s, which is not serial' % (what, q[1]), T)
            # asked for by run, and not started yet
            for i, rr in run_t.items():
                if not J[i]['k'].startswith('serial') or (w is not None and J[i]['user'] != w) or i in dropped: continue
                for (ta, kind, rep) in rr:
                    if ta < t - 2 and not [q for q in starts.get(i, []) if ta * U < q.t < T + U] and not (J[i].get('once') and [q for q in starts.get(i, []) if q.t < ta * U + U and (q.end is None or q.end > ta * U - U)]) and i not in [q[1] for q in L]: return R.fail('serialq', '%s does not show J%d, asked for at %.1f s and not started since' % (what, i, ta), T)
        elif o['a'] == 'ls_lavgq':
            rs = rows(o['out']); w = o['_w']; got = [r['J'] for r in rs]
            for r in rs:
                j = J.get(r['J'], {}); v = [z for f, z in r.items() if 'UNTIL' in f]; v = v[0] if v else ''
                m = re.match(r'[\d.]+,[\d.]+,[\d.]+ +(?:(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) ([YN])|\(no until set\))$', v)
                if j.get('k') != 'lavg': continue
                if not m or bool(m.group(1)) != ('until' in j): return R.fail('lavgq', '%s shows %r of J%d, whose line is %s' % (what, v, r['J'], j['line'][:80]), T)
                R.ok(1, 'lavg queue entries')
                if m.group(1):
                    q = int(datetime.datetime.strptime(m.group(1), '%Y-%m-%d %H:%M:%S').replace(tzinfo=datetime.timezone.utc).timestamp()) - j['until'] * 3600
                    if q % 60 > 3 and not any(0 <= q - tr.real(int(z[0] * U)) // U <= 3 + z[2] for z in run_t.get(r['J'], [])): return R.fail('lavgq', '%s shows %r of J%d, neither due nor asked for %d h before' % (what, v, r['J'], j['until']), T)
                    if m.group(2) != ('Y' if j.get('strict', 1) else 'N'): return R.fail('lavgq', '%s shows %r of J%d, whose line is %s' % (what, v, r['J'], j['line'][:80]), T)
                    R.cover('limits of load jobs')
            for i in got:
                if J.get(i, {}).get('k') != 'lavg': return R.fail('lavgq', '%s shows J%s, which does not depend on the load' % (what, i), T)
                if not [q for q in run_t.get(i, []) if q[0] < t + 1] and not any(abs(r['next'] - rt) > 40000 for r in o['rb'] if r['J'] == i): return R.fail('lavgq', '%s shows J%s, which is not due' % (what, i), T)
            for i, rr in run_t.items():
                if J[i]['k'] != 'lavg' or (w is not None and J[i]['user'] != w) or i in dropped: continue
                for (ta, kind, rep) in rr:
                    if ta < t - 2 and not [q for q in starts.get(i, []) if ta * U - 500000 < q.t < T + U] and not [q for q in starts.get(i, []) if q.t < ta * U and (q.end is None or q.end > ta * U - U)] and i not in got: return R.fail('lavgq', '%s does not show J%d, asked for at %.1f s and not started since' % (what, i, ta), T)
            m = re.search(r'Current load average : ([\d.]+), ([\d.]+), ([\d.]+)', o['out'])
            if not m: return R.fail('lavgq', '%s does not show the load average' % what, T)
            v = [3.] + [q['v'] for q in sc['ops'] if q['a'] == 'lavg' and q['t'] < t - .5]
            if not any(abs(q['t'] - t) <= .5 for q in sc['ops'] if q['a'] == 'lavg') and abs(float(m.group(1)) - v[-1]) > .06: return R.fail('lavgq', '%s shows a load of %s rather than %s' % (what, m.group(1), v[-1]), T)
        elif o['a'] == 'detail':
            rs = rows(o['out'])
            if x is not None and x >= 800: continue
            if x is None or (o['_by'] != 'root' and J.get(x, {}).get('user') != o['_by']):
                if rs: return R.fail('detail', '%s shows %s' % (what, rs), T)
            else:
                if len(rs) != 1 or rs[0]['J'] != x or rs[0]['ID'] != o['j']: return R.fail('detail', '%s shows %s rather than J%d' % (what, rs, x), T)
                r = rs[0]; j = J.get(x)
                if r['next'] not in (nb[x], na.get(x)): return R.fail('detail', '%s shows %s as next execution of J%d' % (what, r['SCHEDULE'], x), T)
                if j:
                    s, m = running(x, T - int(1.5 * U), T + int(1.5 * U))
                    if j['k'] in ('amp', 'at', 'far') and not len(s) <= int(r['R&Q']) <= len(m): return R.fail('detail', '%s shows %s running instances of J%d rather than %d' % (what, r['R&Q'], x, len(s)), T)
                    if int(r['R&Q']) < len(s): return R.fail('detail', '%s shows %s instances of J%d; %d are running' % (what, r['R&Q'], x, len(s)), T)
                    op = ','.join((['L' if j.get('sev') else 'LO'] if j['k'] == 'lavg' else []) + (['SO' if j.get('once') else 'S'] if j['k'].startswith('serial') else ['S'] if j.get('ser') else []) + (['ES'] if j.get('sev') and j['k'] != 'lavg' else []))
                    if r['OPTIONS'] != op: return R.fail('detail', '%s shows the options %r of J%d rather than %r' % (what, r['OPTIONS'], x, op), T)
        elif o['a'] in ('run', 'runnow'):
            ok = x in J and (o['_by'] == 'root' or J[x]['user'] == o['_by']); rep = o.get('rep', 1)
            if not ok: continue
            j = J[x]; n_ = nb[x]
            S = [q for q in starts.get(x, []) if T - 200000 <= q.t < T + int(3.2 * U)]
            others = any(abs(q[0] - t) < 4 for q in run_t[x] if q[0] != t) or len([q for q in run_t[x] if q[0] == t]) > 1
            quiet = n_ > rt + 4 or n_ < rt - 3
            s, m = running(x, T - int(1.2 * U), T + int(.8 * U))
            if j['k'] in ('amp', 'at', 'far') and quiet and not others and len(s) == len(m):
                if j.get('sev'): exp = {rep}
                elif s: exp = {0}
                else: exp = {1} if rep == 1 or j['d'] >= 2 else set(range(1, rep + 1))
                if len(S) not in exp: return R.fail('run', '%s, J%d: it is started %d times rather than %s (%d running before)' % (what, x, len(S), sorted(exp), len(s)), T)
                for q in S:
                    if q.t > T + int((2.2 + .15 * rep) * U): return R.fail('run', '%s: J%d is started only %.1f s later' % (what, x, (q.t - T) / U), T)
                R.ok(1, 'starts asked for')
            # a job which depends on the load waits for it, and starts when it is low
            if j['k'] == 'lavg' and not j.get('ser') and not m and not others and quiet and load_in(T - U, T + 40 * U) == {.1} and not dropped.get(x) and T + 40 * U < tr.T:
                if not [q for q in starts.get(x, []) if T - 200000 <= q.t < T + 35 * U]: return R.fail('run', '%s: J%d is not started within 35 s though the load is low' % (what, x), T)
                R.cover('load jobs started by hand')
            # its schedule
            if x in na and quiet and not others:
                e = n_
                if o['a'] == 'runnow':
                    e = after(j, n_)
                    if e <= rt + 2: e = None
                if e is not None and na[x] != e: return R.fail(o['a'], '%s: the next execution of J%d was %d and is now %d, not %d' % (what, x, n_, na[x], e), T)
                R.ok(1, 'schedules after run')
            # nothing else is started
        elif o['a'] in ('kill', 'renice'):
            ev = [e for e in (tr.kills if o['a'] == 'kill' else [z for z in tr.ev if z['e'] == 'renice']) if e['p'] == 'd0' and T - 200000 <= e['t'] <= T + 2 * U]
            ok = x in J and (o['_by'] == 'root' or J[x]['user'] == o['_by'])
            if ok and o['a'] == 'renice' and o['v'] < 0 and o['_by'] != 'root': ok = False
            bad = not -20 <= o['v'] <= 20 if o['a'] == 'renice' else not (o['s'].lower() in SIGS or 0 < int(o['s']) <= 64)
            if x in dropped: continue
            if bad:
                ok = False
                if ev or 'successfully' in o['out']: return R.fail(o['a'], '%s (J%s) has a value which does not exist: %s %r' % (what, x, ev, o['out']), T)
                R.ok(1, 'values refused'); continue
            s, m = running(x, T - int(1.2 * U), T + int(.8 * U)) if ok else ([], [])
            to = [e['to'] for e in ev]
            for e in ev:
                if e['to'] not in [q.pid for q in m]: return R.fail(o['a'], '%s (J%s): the daemon acts on process %d (J%s)' % (what, x, e['to'], e.get('tj')), T)
                v = e['sig'] if o['a'] == 'kill' else e['prio']
                want = min(o['v'], 19) if o['a'] == 'renice' else SIGS.get(o['s'].lower()) or int(o['s'])
                if v != want: return R.fail(o['a'], '%s (J%s): the daemon uses %d rather than %d' % (what, x, v, want), T)
            for q in s:
                if pf(q):
                    R.cover('jobs whose process is unknown')
                    continue
                if to.count(q.pid) != 1: return R.fail(o['a'], '%s: process %d of J%d is reached %d times' % (what, q.pid, x, to.count(q.pid)), T)
                if 'process %d' % q.pid not in o['out']: return R.fail(o['a'], '%s: the answer %r does not name process %d' % (what, o['out'], q.pid), T)
                R.ok(1, '%s reached' % o['a']); 
            if len(s) > 1: R.cover('several instances reached')
            if ok and not m and 'successfully' in o['out']: return R.fail(o['a'], '%s: %r although J%s is not running' % (what, o['out'], x), T)
    for j in J.values():
        if j['k'] != 'lavg': continue
        prev = 0
        for q in starts.get(j['id'], []):
            if .1 not in load_in(prev if j.get('ser') or j.get('sev') else q.t - 2 * U, q.t): return R.fail('load', 'J%d is started at %.1f s though the load has not been low' % (j['id'], q.t / U), q.t)
            R.cover('starts at a low load'); prev = q.t
    # a listed time is the one at which the job runs
    for o in cmds:
        t = o['t']
        if near(t) or any(e['t'] > t for e in edits): continue
        for r in o['rb']:
            j = J.get(r['J'])
            if not j or j['k'] not in ('amp', 'at', 'far'): continue
            mono = r['next'] * U - (tr.real(int(t * U)) - int(t * U))
            if mono + 3 * U > tr.T or mono < t * U: continue
            if any(t - .2 <= q[0] <= mono / U + 2 for q in run_t.get(j['id'], [])): continue
            if any(q.t < mono and (q.end is None or q.end > mono - U) for q in starts.get(j['id'], [])) : continue
            w = [q for q in starts.get(j['id'], []) if t * U < q.t <= mono + int(2.5 * U)]
            if not w or abs(w[0].t - mono) > 2.5 * U: return R.fail('promise', 'at %.1f s ls shows J%d as due at %.1f s; it runs at %s' % (t, j['id'], mono / U, ['%.1f' % (q.t / U) for q in w]), int(t * U))
            R.ok(1, 'next executions kept')
