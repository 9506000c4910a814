"""P28: a job interrupted by a crash is run again once, and nothing else changes."""
import struct
from common import *
QUICK = 8000
U = 1000000
MIN = ['faults', 'ops', 'jobs']
SPOOL = '/var/spool/fcron/'

def gen(rng, i, tier):
    S = rng.choice([60, 60, 120, 300]); end = rng.choice([2400, 5000, 2 * 3600, 4 * 3600]); fs = rng.choice([1, 1, 5, 20])
    sc = new_sc(rng, end, savetime=S, firstsleep=fs, maxserial=rng.choice([1, 1, 2, 3]), daemon_may_die=True, users=rng.sample(US[:4], rng.randint(1, 3)))
    sc['rt'] += rng.choice([0, 0, -sc['rt'] % 3600 - rng.randint(60, 2000)])
    for k in range(rng.choice([1, 2, 3, 5, 8])):
        u = rng.choice(sc['users']); kind = rng.choice('&&&@@%'); d = rng.choice([0, 3, 30, 70, 150, 300]); o = []; j = dict(id=k + 1, user=u, kind=kind)
        if kind == '@':
            Q = rng.choice([rng.randint(100, 400), rng.randint(200, 1500)]); d = min(d, Q // 2); j['Q'] = j['F'] = Q; j['spec'] = [str(Q) + 's']
            if rng.random() < .3: j['F'] = rng.choice([0, 1, rng.randint(10, 600)]); o.append('first(%ds)' % j['F'] if j['F'] else 'first(0)')
            if rng.random() < .15: o.append('volatile'); j['vol'] = 1
            if rng.random() < .15: o.append('rebootreset'); j['reset'] = 1
        elif kind == '&':
            p = rng.choice([1, 2, 3, 5, 10, 20, 30]); st = rng.randint(0, p - 1); mi = list(range(st, 60, p))
            if rng.random() < .25: d = rng.choice([70, 150, 300, 600])
            j['spec'] = ['%d-59/%d' % (st, p) if p > 1 else '*', '*', '*', '*', '*']; j['sets'] = [mi, list(range(24)), list(range(1, 32)), list(range(1, 13)), list(range(7))]
            if rng.random() < .2: o.append('bootrun')
            if rng.random() < .2 and p * 60 > d / 200: o.append('exesev')
            if p >= 5 and d <= 150 and rng.random() < .3: 
                j['serial'] = rng.choice(['serial', 'serialonce']); o += ['serial', 'serialonce(%s)' % ('yes' if j['serial'] == 'serialonce' else 'no')]
                if 'exesev' in o: o.remove('exesev')
            elif p >= 10 and rng.random() < .25: 
                j['lavg'] = rng.choice(['strict', 'lax']); o += ['lavg(5,5,5)', 'strict(%d)' % (j['lavg'] == 'strict')]
                if 'exesev' in o: o.remove('exesev')
            if rng.random() < .15: j['ro'] = 1; o.append('runonce')
        else: j['spec'] = ['*']; j['key'] = 'hourly'
        if kind != '%' and rng.random() < .15: o.append('runatreboot')
        j['d'] = d; j['opts'] = o; j['o'] = [x.split('(')[0] for x in o]; j['cmd'] = 'J%d%s' % (k + 1, ' d%d' % d if d else '')
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    ops = []; t = 5.; n = 1; b = 5.
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        k = rng.choice([0, 1, 1, 1, 2, 3, 6]); sv = b + k * S
        e = rng.choice([sv + rng.uniform(0, .01), sv + rng.uniform(1, 8), sv + rng.uniform(1, S), sv + rng.uniform(1, S), b + rng.uniform(0, fs + 3), b + rng.uniform(20, 1500)])
        e = max(e, t + .01)
        if e > end - 900: break
        how = rng.choice(['crash', 'crash', 'kill', 'kill', 'fcrash', 'fkill', 'term', 'tkill', 'shutdown'])
        if how in ('fcrash', 'fkill'):
            sc['faults'].append(dict(who='d%d' % (n - 1), sys=rng.choice(['*', '*', '*', 'rename', 'write', 'open', 'fdatasync', 'fork', 'waitpid', 'kill', 'time']), frm=rng.choice([1, 2, 3, rng.randint(1, 15), rng.randint(1, 150)]), cnt=1, kind=rng.choice('Cc' if how == 'fcrash' else 'Kk'), arg=rng.randint(1, 10 ** 6), t0=round(max(e - rng.choice([.3, 2]), t), 2), t1=round(e + 100, 2))); e += 100
        elif how == 'crash': ops.append(dict(t=round(e, 4), k='crash', key=rng.randint(1, 10 ** 6)))
        elif how == 'kill': ops.append(dict(t=round(e, 4), k='sig', s=9))
        else:
            ops.append(dict(t=round(e, 4), k='sig', s=15)); e += rng.choice([.001, .01, 1, 5, 30, 100]) if how != 'term' else 1
            if how == 'tkill': ops.append(dict(t=round(e, 4), k='sig', s=9))
            elif how == 'shutdown': ops.append(dict(t=round(e, 4), k='crash', key=rng.randint(1, 10 ** 6)))
            else: e += max(j['d'] for j in sc['jobs']) * 2
        t = e + rng.choice([.5, .5, 3, 30, 200, 1500])
        if t > end - 300: t = e + .5
        ops.append(dict(t=round(t, 3), k='start', n=n, boot=rng.random() < .1)); b = t; n += 1
    sc['end'] = int(max(end, t + 1500) * U) // U
    for _ in range(rng.choice([0, 0, 1, 3])): ops.append(dict(t=round(rng.uniform(10, sc['end'] - 10), 3), k=rng.choice(['dynls', 'dynlsu', 'list', 'chld', 'hup']), u='ali'))
    sc['ops'] = sorted(ops, key=lambda o: o['t'])
    return sc

def build(sc):
    p = base(sc); p.params['commit'] = '0 5000000'
    tables(p, .5, sc['jobs'], {u: '!mail(no)\n' for u in sc['users']}); args = ['-l', str(sc['firstsleep']), '-s', str(sc['savetime']), '-m', str(sc['maxserial'])]
    p.op(3, 'sync'); p.daemon(5, args)
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if do_noise(p, o): continue
        if k == 'crash': p.op(t, 'crash', o['key'])
        elif k == 'hup': p.op(t, 'sig', 'daemon', 1)
        elif k == 'sig': p.op(t, 'sig', 'daemon', o['s'])
        elif k == 'start':
            p.op(t - .05, 'sig', 'daemon', 9)
            if o['boot']: p.op(t - .04, 'wiperun')
            for u in sc['users']: p.op(t - .03, 'cat', SPOOL + u)
            p.daemon(t, args, name='d%d' % o['n'])
    for f in sc['faults']: p.fault(f['who'], f['sys'], f['frm'], f['cnt'], f['kind'], f['arg'], f['t0'], f['t1'])
    return p

def decode(data):
    """(time of the save, {job number: running count}) of a saved table"""
    b = data.encode('latin1'); i = 0; t = 0; r = {}; j = None
    while i + 4 <= len(b):
        ty, n = struct.unpack_from('<hh', b, i); v = b[i + 4:i + 4 + n]; i += 4 + n
        if ty == 3: t = struct.unpack('<q', v)[0]
        elif ty == 2001: m = re.match(rb'J(\d+)', v); j = int(m.group(1)) if m else None; r[j] = 0
        elif ty == 2002: r[j] = v[0]
    return t, r

def check(sc, tr, R):
    fs = sc['firstsleep'] * U; S = sc['savetime'] * U; live = []
    for d in tr.daemons:
        if d.end is not None and d.end_by == 'exit' and d.term is None: return R.fail('died', 'the daemon stopped by itself (status %s)' % d.st, d.end)
        live.append(d)
    r0 = tr.real(0); J = {j['id']: j for j in sc['jobs']}
    if any(a.end is None or a.end > b.t for a, b in zip(live, live[1:])): return R.cover('skipped: overlap')
    runs = [[x for x in tr.jobs if x.d == d.name] for d in live]
    if any(x.id not in J for x in tr.jobs): return R.fail('phantom', 'a job which is in no table ran', tr.jobs[0].t)
    boots = []; st = []                                              # per life: job -> dict(E, due, ...)
    for i, d in enumerate(live):
        s = d.t; e = d.end if d.end is not None else tr.T; term = min(d.term if d.term is not None else e, e); cur = {}; st.append(cur)
        boot = i == 0 or any(live[i - 1].t <= c < s for c in tr.crashes) or any(o['k'] == 'start' and o.get('boot') and abs(o['t'] * U - s) < U // 5 for o in sc['ops'])
        if i and boots[-1] and live[i - 1].end - live[i - 1].t < 50000 and not boot: return R.cover('skipped: killed before it noted the boot')
        boots.append(boot)
        files = {f['path'][len(SPOOL):]: f for f in tr.files if f['path'].startswith(SPOOL) and s - 60000 < f['t'] < s}
        dec = {u: decode(f['data']) for u, f in files.items() if 'data' in f}
        for j in sc['jobs']:
            o = j['o']; c = cur[j['id']] = dict(E=0, B=0, L=None, ts=None, why='')
            if i == 0: c['new'] = True; continue
            if j['user'] not in dec: return R.cover('skipped: no table')
            ts, num = dec[j['user']]
            if ts == 0: c['new'] = True; R.cover('state never saved'); c['bt'] = None; continue
            c['new'] = False; w = ts * U - r0; c['ts'] = w; c['bt'] = w
            L = [k for k, q in enumerate(live[:i]) if q.t - 1.5 * U <= w <= (q.end or tr.T) + U]
            if not L: return R.fail('date', 'the saved state is dated %.1f s, when no daemon ran' % (w / U), s)
            L = c['L'] = [k for k in L if w - live[k].t > 20 * U or live[k].term is not None and -1.5 * U <= live[k].term - w <= 1.5 * U or k == L[0]][-1]; D = live[L]; pl = st[L][j['id']]
            # the state is not older than the time between two saves
            if L == i - 1 and D.end - max(w, D.t) > S + 3 * U and D.term is None: return R.fail('old', 'the state restored at %.1f s is that of %.1f s, although it has to be saved every %d s' % (s / U, w / U, S // U), s)
            if L == i - 1 and D.term is not None and D.end - D.term > U // 2 and w < D.term - 2 * U: return R.fail('old', 'the state restored at %.1f s is that of %.1f s, although the daemon was told to stop at %.1f s' % (s / U, w / U, D.term / U), s)
            def recorded(x):
                """was it running when the state was saved: 1 yes, 0 no, .5 not known"""
                xe = x.end if x.end is not None else tr.T
                if D.term is not None and w > D.term - 2 * U: return 1 if x.t < w - U and xe >= D.end else .5 if x.t < D.end and xe > w - 2 * U else 0
                return 1 if x.t < w - U and xe > w + 2.5 * U else .5 if x.t < w + 2.5 * U and xe > w - 2 * U else 0
            E = max([recorded(x) for x in runs[L] if x.id == j['id']], default=0); why = 'was running'
            if pl['E'] == 1 and E < 1:                    # still queued to be run again
                if pl['done'] is None or pl['done'] > w + 2.5 * U: E, why = 1, 'was waiting to be run again'
                elif pl['done'] > w - 2 * U or 'exesev' in o: E = max(E, .5)
            elif pl['E'] == .5 and E < 1 and ('exesev' in o or pl['done'] is None or pl['done'] > w - 2 * U): E = .5
            if pl['B'] and E < 1 and ('exesev' in o or pl['bdone'] is None or pl['bdone'] > w - 2 * U): E = max(E, .5)
            if ('serial' in j or 'lavg' in j) and E < 1 and num.get(j['id']): E = .5
            if w > D.end - 4 * U and E < 1 and num.get(j['id']): E = .5     # killed between its fork and its exec
            if j.get('lavg') == 'strict': E = 0
            if boot and 'runatreboot' in o: E = 0
            c['E'] = E; c['why'] = why
        # the runs of this life
        xs = {k: [x for x in runs[i] if x.id == k] for k in J}
        slot = [x for x in runs[i] if cur[x.id]['E'] or 'serial' in J[x.id] or 'bootrun' in J[x.id]['o']]
        Rend = s + fs + 4 * U
        while True:
            y = max([x.end if x.end is not None else tr.T for x in slot if x.t <= Rend and (x.end is None or x.end > Rend - 4 * U)], default=0) + 4 * U
            if y <= Rend: break
            Rend = y
        for j in sc['jobs']:
            c = cur[j['id']]; f = judge(sc, tr, R, j, c, d, i, s, e, term, fs, boot, xs[j['id']], min(Rend, tr.T + 1), runs, st, live, r0)
            if f: return R.fail(*f)

def judge(sc, tr, R, j, c, d, i, s, e, term, fs, boot, xs, Rend, runs, st, live, r0):
    o = j['o']; name = '"%s" of %s' % (j['line'].replace('\n', ' / '), j['user']); E = c['E']; exesev = 'exesev' in o; serial = j.get('serial'); lavg = j.get('lavg')
    rend = Rend if not lavg else s + fs + 75 * U
    lo = s + fs - 1.5 * U; late = (40 if lavg else 4) * U
    c['done'] = None; c['bdone'] = None; used = set(); atboot = boot and 'runatreboot' in o
    def busy(t):                                              # is it running, or queued, around t
        if exesev: return False
        if E and (c['done'] is None or c['done'] > t - 3 * U) and t < rend: return True
        if c['B'] and t < rend: return True
        return any(x.t < t + 3 * U and (x.end is None or x.end > t - 4 * U) and x.t < t - U / 2 for x in xs)
    if E == 1: R.cover('interrupted: ' + c['why'])
    if j['kind'] == '&':
        cal = Cal(j['sets']); W = []
        ms = [m * U - r0 for m in cal.labels((s + r0) // U - 60, (e + r0) // U + 2)]
        if 'bootrun' in o and not c['new'] and ('runonce' in o or 'runatreboot' in o or any(c['bt'] - 120 * U < m < s + 1.5 * U for m in ([q * U - r0 for q in cal.labels((c['bt'] + r0) // U - 120, (s + r0) // U + 2)]))): c['B'] = 1
        first = [m for m in ms if s - 1.5 * U <= m <= s + fs + 1.2 * U]
        if atboot: W.append([lo, s + fs + late, True])
        if first: W.append([max(min(first) - 200000, lo), s + fs + late, any(s + 1.5 * U < m < s + fs - U for m in first) and not atboot])
        if first and max(first) > s + fs - 3 * U: W.append([max(first) - 200000, max(first) + late, False])
        for m in ms:
            if m > s + fs + 1.2 * U: W.append([m - 200000, m + late, True])
        if 'runonce' in o: W = [[a, b, False] for a, b, m in W]
        if serial:
            # each time gives one run, delayed by the queue
            n = len([w for w in W]); sure = len([w for w in W if w[2] and w[1] < term])
            k = len(xs); lim = n + (1 if E else 0) + c['B']
            R.ok(1, 'serial job')
            if k > lim: return ('again', '%s ran %d times between %.1f and %.1f s, %d at most expected' % (name, k, s / U, e / U, lim), xs[-1].t)
            q = [x for x in xs if lo <= x.t <= Rend]
            if q: c['done'] = c['bdone'] = q[0].t
            if E == 1 and Rend < term and not q: return ('not-again', '%s %s when the state was saved at %.1f s, and was not run again after the restart at %.1f s' % (name, c['why'], c['ts'] / U, s / U), int(Rend))
            if E == 1 and q: R.ok(1, 'run again')
            if E == 0 and not c['B'] and q and not any(w[0] <= q[0].t for w in W): return ('again', '%s ran at %.1f s, outside its schedule' % (name, q[0].t / U), q[0].t)
            if serial == 'serial' and 'runonce' not in o:
                # the number of times due so far, less the number of runs, only grows while the slot is taken
                allr = sorted([(x.t, x.end if x.end is not None else tr.T) for x in runs[i] if st[i][x.id]['E'] or any(q['id'] == x.id and ('serial' in q or 'bootrun' in q['o']) for q in sc['jobs'])])
                dues = sorted(w[0] for w in W if w[2])
                for k, t in enumerate(dues):
                    if k < len(xs): st_ = xs[k].t
                    else: st_ = e
                    a = t + 4.5 * U
                    while a < min(st_, term - 2 * U):
                        b = max([z for y, z in allr if y <= a and z > a - 4 * U], default=None)
                        if b is None: return ('lost', '%s was not run, although it was due at %.1f s and the serial queue was idle' % (name, t / U), int(a))
                        if b + 4.5 * U <= a: break
                        a = b + 4.5 * U
                    R.ok(1, 'serial run')
            return
        left = []
        for x in xs:
            w = [k for k, w in enumerate(W) if w[0] <= x.t <= w[1] and k not in used]
            # the mandatory ones first
            w.sort(key=lambda k: (not W[k][2], W[k][1]))
            if w:
                used.add(w[0]); R.ok(1, 'run at its time')
                if exesev and not W[w[0]][2] and lo <= x.t <= rend: c.setdefault('opt', x.t)
            else: left.append(x)
        f = leftovers(R, j, c, name, left, xs, E, lo, rend, term, exesev, s, i, atboot)
        if f: return f
        if 'runonce' in o: return
        for k, (a, b, must) in enumerate(W):
            if not must or k in used or b > term - 2 * U or busy(a) or busy(b): continue
            if lavg and any(x.t < b and (x.end is None or x.end > a - 40 * U) for x in xs): continue
            return ('lost', '%s was not run at %.1f s' % (name, b / U), int(b))
    elif j['kind'] == '@':
        F, Q = j['F'] * U, j['Q'] * U; tol = 3.6 * U
        if atboot: due = [(s, s)]
        elif c['new'] or j.get('vol') or boot and (j.get('reset')): due = [(s + F, s + F)]
        else:
            pl = st[c['L']][j['id']]; D = live[c['L']]; w = c['ts']; due = []
            for t0, t1, ds in pl['hist']:
                if t0 <= w + 2.5 * U and t1 >= w - 2 * U: due += [(s + max(0, a - w - 1.5 * U), s + max(0, b - w) + 1.5 * U) for a, b in ds]
        hist = []; last = last2 = s; left = []
        def end_of(ds): return max(max(b, s + fs) for a, b in ds)
        for x in xs + [None]:
            t = x.t if x else term
            while True:
                # due times which passed while it was running or queued are skipped
                g = [(a, b) for a, b in due if max(b, s + fs) + tol < t]
                sk = [(a, b) for a, b in g if busy(max(b, s + fs)) or busy(a)]
                if len(g) == len(due) and not sk: return ('lost', '%s was not run at %.1f s, %.0f s after %s' % (name, end_of(due) / U, (end_of(due) - last) / U, 'the restart' if last == s else 'its last run'), int(end_of(due)))
                if not g: break
                hist.append((last, max(max(b, s + fs) for a, b in g) + tol, due)); last2 = min(max(a, s + fs) for a, b in g) - tol
                hist.append((last2, t, [p for p in due if p not in g] + [(max(a, s + fs - U) + Q - U, max(b, s + fs) + Q + 2 * U) for a, b in sk]))
                due = [p for p in due if p not in g] + [(max(a, s + fs - U) + Q - U, max(b, s + fs) + Q + 2 * U) for a, b in sk]
            if x is None: hist.append((max(last, last2), e, due + [(max(a, s + fs - U) + Q - U, max(b, s + fs) + Q + 2 * U) for a, b in due if max(a, s + fs) - tol < t and (busy(max(a, s + fs)) or e < tr.T)])); break
            m = [(a, b) for a, b in due if max(a, s) - tol <= t <= max(b, s + fs) + tol]
            if not m:
                # skipped at its time, just before
                left.append(x)
                if c['done'] is None and lo <= t <= rend: c['done'] = c['bdone'] = t
                continue
            R.ok(1, 'uptime run'); amb = (E or c['B']) and lo <= t <= rend and c['done'] is None and not exesev
            hist.append((max(last, last2), t, due)); nd = [(t + Q - U, t + Q + U)]
            if amb: nd += [(max(a, s + fs - U) + Q - U, max(b, s + fs) + Q + 2 * U) for a, b in due] + [p for p in due if p[1] + tol > t]
            due = nd; last = t
            if amb: c['done'] = t
        c['hist'] = hist
        f = leftovers(R, j, c, name, left, xs, E, lo, rend, term, exesev, s, i, atboot)
        if f: return f
    else:
        hr = lambda t: (t + r0) // (3600 * U)
        inw = [x for x in xs if lo <= x.t <= Rend]
        per = {}
        for x in xs: per.setdefault(hr(x.t), []).append(x)
        ex = 1 if E else 0; tot = 0
        for h, q in per.items():
            n = len(q); R.ok(1, 'hourly run')
            if n > 1:
                if not ex: return ('twice', '%s ran %d times in one hour' % (name, n), q[-1].t)
                ex -= n - 1
                if ex < 0: return ('twice', '%s ran %d times in one hour' % (name, n), q[-1].t)
        if inw: c['done'] = inw[0].t
        if E == 1 and Rend < term:
            if not inw: return ('not-again', '%s %s when the state was saved at %.1f s, and was not run again after the restart at %.1f s' % (name, c['why'], c['ts'] / U, s / U), int(Rend))
            R.ok(1, 'run again')
        h = hr(s) + 1
        while (h + 1) * 3600 * U < term + r0 - 5 * U:
            a = h * 3600 * U - r0
            if not per.get(h) and not busy(a): return ('lost', '%s was not run in the hour of %.1f s' % (name, a / U), int(a))
            h += 1

def leftovers(R, j, c, name, left, xs, E, lo, rend, term, exesev, s, i, atboot):
    """the runs which the schedule does not tell: one run again after the restart, and one for option bootrun"""
    n = (1 if E else 0) + c['B']
    for x in left:
        if not (lo <= x.t <= rend) or n == 0:
            return ('again', '%s ran at %.1f s, %.1f s after the restart, outside its schedule%s' % (name, x.t / U, (x.t - s) / U, ' and a second time after the restart' if E and lo <= x.t <= rend else ''), x.t)
        n -= 1
        if c['done'] is None: c['done'] = c['bdone'] = x.t
    if c['done'] is None and 'opt' in c: c['done'] = c['bdone'] = c['opt']
    if c['done'] is None and not exesev:
        q = [x for x in xs if lo <= x.t <= rend]
        if q: c['done'] = c['bdone'] = q[0].t                   # it was run again at a time it was due
    if E == 1 and rend < term - 2e6:
        if c['done'] is None: return ('not-again', '%s %s when the state was saved at %.1f s, and was not run again after the restart at %.1f s' % (name, c['why'], c['ts'] / 1e6, s / 1e6), int(rend))
        R.ok(1, 'run again')
    elif E == 0 and i and not c['new']: R.ok(1, 'not run again')
