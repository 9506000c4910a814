"""P25: a missed run of a noticenotrun job is announced by one mail with true facts; nothing else is announced."""
from common import *
import p03, re
QUICK = 4000
THOROUGH = 60000
U = 1000000
ZS = ['UTC', 'Asia/Tokyo', 'Asia/Kolkata', 'America/Phoenix', 'Asia/Kathmandu', 'Pacific/Honolulu', 'Europe/Paris', 'America/New_York', 'Australia/Adelaide']
MIN = ['ops', 'jobs']
LK = list(p03.LY)

def pct(rng, style):
    """key, text of the fields and the five sets of a %-job whose fields do not match always"""
    key = rng.choice({'hour': ['hourly', 'midhourly', 'mins', 'hours'], 'day': ['daily', 'middaily', 'nightly', 'hours', 'days', 'hourly'], 'week': ['weekly', 'midweekly', 'days', 'dow', 'daily'], 'month': ['monthly', 'midmonthly', 'mons', 'dow', 'weekly']}[style])
    for _ in range(60):
        if key in p03.LY:
            n = p03.LY[key]; F = [rfield(rng, q) for q in range(n)]; sets = [f[1] for f in F] + [p03.star(q)[1] for q in range(n, 5)]; cand = range(0, n)
        else:
            F = [rfield(rng, q) for q in range(5)]
            if key == 'mins' and rng.random() < .6: F[1] = p03.star(1)
            if key != 'mons' and rng.random() < .8: F[3] = p03.star(3)
            if key != 'days' and rng.random() < .6: F[2] = p03.star(2)
            if key != 'dow' and rng.random() < .6: F[4] = p03.star(4)
            sets = [f[1] for f in F]; cand = range(p03.IG[key], 5)
        full = lambda q: len(set(sets[q])) >= {0: 60, 1: 24, 2: 31, 3: 12, 4: 7}[q]
        if any(not full(q) for q in cand) and not (not full(2) and max(sets[2]) >= 29 and len(sets[2]) < 3): return key, [f[0] for f in F], sets
    return None

def gen(rng, i, tier):
    mode = rng.choice(['down', 'down', 'down', 'lavg', 'full'])
    zone = rng.choice(ZS) if rng.random() < .5 else None
    if mode == 'full': return gen_full(rng, zone)
    style = rng.choice(['hour', 'hour', 'day', 'day', 'week', 'month'] if mode == 'down' else ['hour', 'hour', 'day'])
    unit = {'hour': 3600, 'day': 86400, 'week': 7 * 86400, 'month': 31 * 86400}[style]
    end = int(unit * rng.uniform(2, {'hour': 20, 'day': 15, 'week': 8, 'month': 8}[style] if mode == 'down' else {'hour': 12, 'day': 6}[style]))
    sc = new_sc(rng, end, rand_rt(rng, zone), zone=zone, mode=mode, fs=rng.choice([20, 20, 1, 5]))
    users = rng.sample(US[:4], rng.randint(1, 2)); k = 0
    for _ in range(rng.choice([1, 2, 3, 5])):
        o = []; u = rng.choice(users); notice = rng.random() < .8; pc = mode == 'lavg' or rng.random() < .45
        if notice: o.append(rng.choice(['noticenotrun', 'noticenotrun(1)', 'n', 'noticenotrun(true)']).replace('n(', 'n('))
        o = [x if x != 'n' else 'noticenotrun' for x in o]
        tz = rng.choice(ZS) if rng.random() < .4 else None
        if tz: o.append('timezone(%s)' % tz)
        to = rng.choice(['bob', 'x@y.org']) if rng.random() < .3 else None
        if to: o.append('mailto(%s)' % to)
        if rng.random() < .2: o.append(rng.choice(['nolog', 'nice(3)', 'erroronlymail', 'serial']) if mode == 'down' else 'nolog')
        j = dict(user=u, tz=tz, to=to, notice=notice)
        if pc:
            q = pct(rng, style)
            if q is None: continue
            j.update(kind='%', key=q[0], spec=q[1], sets=q[2])
            if mode == 'down' and q[0] in p03.LY:
                for x in ('runatreboot', 'runatresume'):
                    if rng.random() < .15: o.append(x)
            if mode == 'lavg':
                if rng.random() < .85: o.append(rng.choice(['lavg1(1)', 'lavg5(1.0)', 'lavg(1,1,1)', 'lavg15(1)']) + rng.choice(['', '', ',strict', ',strict(1)']))
                else: o += ['lavg1(1)', 'strict(0)']
        else:
            s, t = fields(rng, {'hour': 'hour', 'day': 'hour', 'week': 'day', 'month': 'day'}[style] if rng.random() < .8 else None)
            if style != 'hour' and len(t[0]) > (3 if style == 'day' else 1): s[0] = str(t[0][0]); t[0] = t[0][:1]
            if style in ('week', 'month') and len(t[1]) > 3: s[1] = str(t[1][0]); t[1] = t[1][:1]
            j.update(kind='&', spec=s, sets=t)
            for x in ('runatreboot', 'runatresume', 'bootrun'):
                if rng.random() < .15: o.append(x)
        k += 1; j.update(id=k, opts=o, cmd='J%d%s' % (k, rng.choice(['', '', ' x3', ' d2'])))
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    if not sc['jobs']: return gen(rng, i, tier)
    rt = sc['rt']
    def at(t): t = int(t); return t - (rt + t) % 60 + rng.randint(6, 50) + .5
    t = at(65); sc['start'] = t; t += 120; ops = []
    span = lambda: rng.choice([60, 120, 600, 3600, int(unit * rng.random()) + 60, int(unit * 2 * rng.random()) + 60, int(unit / 12)])
    if mode == 'down':
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            t = at(t + span()); g = max(60, span() // 60 * 60)
            if t + g + 300 > end: break
            if rng.random() < .6:
                e2 = max(at(t + g), t + 60); ops.append(dict(t=t, k=rng.choice(['restart', 'restart', 'boot']), to=e2)); t = e2 + 120
            else: ops.append(dict(t=t, k='susp', s=g)); t += 240
    else:
        hi = rng.random() < .7; ops.append(dict(t=30.5, k='load', v=hi))
        for _ in range(rng.choice([1, 2, 4, 6])):
            t = at(t + span())
            if t + 300 > end: break
            if rng.random() < .75: hi = not hi; ops.append(dict(t=t, k='load', v=hi)); t += 120
            else:
                g = max(60, span() // 60 * 60)
                ops.append(dict(t=t, k='susp', s=g)); t += 240
    sc['ops'] = ops
    return sc

def gen_full(rng, zone):
    kind = rng.choice(['serial', 'lavg', 'serial'])
    sc = new_sc(rng, 4 * 3600, rand_rt(rng, zone), zone=zone, mode='full', fs=20, q=rng.choice([5, 5, 6, 8]), m=rng.choice([1, 1, 2]), kind=kind); sc['rt'] -= sc['rt'] % 60; end = 5400
    al = rng.random() < .6
    for k in range(1, rng.choice([7, 9, 14, 30]) + 1):
        n = al or rng.random() < .6; o = [kind if kind == 'serial' else 'lavg1(1)']
        if kind == 'lavg': o.append('lavgonce(0)')
        if n: o.append('noticenotrun')
        to = rng.choice(['bob', 'x@y.org']) if rng.random() < .2 else None
        if to: o.append('mailto(%s)' % to)
        tz = rng.choice(ZS) if rng.random() < .2 else None
        if tz: o.append('timezone(%s)' % tz)
        st = rng.choice([1, 2, 5, 10]); h0 = split(Zone(tz or zone).label(sc['rt']))[1]; hs = sorted([h0, (h0 + 1) % 24]); j = dict(id=k, user=rng.choice(US[:4]), kind='&', notice=n, to=to, tz=tz, spec=['*' if st == 1 else '*/%d' % st, ','.join(map(str, hs)), '*', '*', '*'], sets=[list(range(0, 60, st)), hs, list(range(1, 32)), list(range(1, 13)), list(range(7))], opts=o, cmd='J%d d%d' % (k, rng.choice([1, 5, 30])))
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    if kind == 'lavg':
        t = 61; hi = False
        for _ in range(rng.choice([1, 2, 4])):
            sc['ops'].append(dict(t=t + .5, k='load', v=True)); t += rng.choice([70, 200, 600]); sc['ops'].append(dict(t=t + .5, k='load', v=False)); t += rng.choice([45, 90, 400])
            if t > end: break
    sc['start'] = 5.5
    return sc

def build(sc):
    from simlib import ROOT_ENV
    p = base(sc); tables(p, 1, sc['jobs']); env = ROOT_ENV + ['TZ=' + sc['zone']] if sc['zone'] else None
    args = ['-l', str(sc['fs'])] + (['-q', str(sc['q']), '-m', str(sc['m'])] if sc['mode'] == 'full' else [])
    if sc['mode'] == 'lavg': args += ['-m', '200']
    p.op(0, 'loadavg', .3, .3, .3); p.daemon(sc['start'], args, env=env, name='d0'); n = 1
    for o in sc['ops']:
        if o['k'] in ('restart', 'boot'):
            p.op(o['t'], 'sig', 'daemon', 15)
            if o['k'] == 'boot': p.op(o['to'] - .2, 'wiperun')
            p.daemon(o['to'], args, name='d%d' % n, env=env); n += 1
        elif o['k'] == 'susp': p.op(o['t'], 'suspend', o['s'] * U)
        else: v = 3. if o['v'] else .3; p.op(o['t'], 'loadavg', v, v, v)
    return p

RX = re.compile(r"Line '(.*)' has not run since and including (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+) \(timezone=([^)]*)\)\s+due to (system's down or suspended state|a too high system load average or too many lavg-serial jobs)\.\s+It will be next executed at (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+)(?: \(timezone=([^)]*)\))?\s*$")
RF = re.compile(r"Line '(.*)' couldn't be added to lavg or serial queue which is full \( (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+) \(timezone=([^)]*)\)\)\.\s+Consider using .*\s+Note that job '(.*)' has not run\.\s*$", re.S)

def lab(y, mo, d, h, mi): return int((datetime.datetime(int(y), int(mo), int(d), int(h), int(mi)) - datetime.datetime(1970, 1, 1)).total_seconds())
def show(l): return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=l)).strftime('%a %F %H:%M') if l is not None else '-'

def notices(sc, tr, R):
    """the non-execution mails by job: (t, kind, since label, next label)"""
    out = {j['id']: [] for j in sc['jobs']}; by = {j['id']: j for j in sc['jobs']}
    for m in tr.mails:
        h, _, b = m['data'].partition('\n\n')
        if 'Non-execution' not in h: continue
        if m.get('err'): R.cover('mailer failed'); continue
        x = RX.match(b.strip()) or RF.match(b.strip()); g = x and re.match(r'J(\d+)', x.group(1))
        if not x or int(g.group(1)) not in by: R.fail('form', 'a mail about a job that did not run is not understandable: %r' % m['data'][:500], m['t']); return None
        j = by[int(g.group(1))]
        if x.group(1) != j['cmd']: R.fail('name', 'the mail names %r, the job is %r' % (x.group(1), j['cmd']), m['t']); return None
        full = x.re is RF; v = x.groups()
        a = lab(*v[1:4], *v[5:7]); n = None if full else lab(*v[9:12], *v[13:15])
        for l, w in ((a, v[4]), (n, None if full else v[12])):
            if l is not None and (l // 86400 + 4) % 7 != int(w): R.fail('weekday', 'wrong day of the week in %r' % b, m['t']); return None
        if v[7] != (j['tz'] or "system's") or (not full and v[15] is not None and v[15] != (j['tz'] or "system's")): R.fail('zone', 'the mail names the time zone %r for %s' % (v[7], j['line']), m['t']); return None
        to = j['to'] or j['user']
        hd = dict(l.split(': ', 1) for l in h.split('\n') if ': ' in l)
        if (hd.get('To') or '').split('@')[0] != to.split('@')[0] or to not in m['argv']: R.fail('recipient', 'the mail about job %s goes to %r %r instead of %s' % (j['line'], hd.get('To'), m['argv'], to), m['t']); return None
        if not j['notice']: R.fail('unasked', 'job %s has no noticenotrun, but a mail was sent: %s' % (j['line'], b), m['t']); return None
        out[j['id']].append((m['t'], 'full' if full else 'down' if v[8].startswith('sys') else 'lavg', a, n))
    return out

class Stop(Exception): pass

def expect(sc, j, cal, z, per, trs, rt, R):
    """the expected notices: (real time, kind, since min, since max, next), for one job, by a model of its schedule"""
    exp = []; o = j['opts']; pc = j['kind'] == '%'; lav = sc['mode'] == 'lavg'; end = rt + sc['end']
    def occ(t):
        """the first allowed minute after the one which holds t"""
        l = z.label(int(t) // 60 * 60) + 60; w = 86400
        while w < 3000 * 86400:
            c = cal.labels(l, l + w)
            if c: return c[0] - z.off(c[0])
            w *= 4
        raise Stop()
    P = lambda t: per(z.label(t))
    def nextper(t, q=None):
        """the first allowed minute in a period after that of t"""
        p0 = P(int(q or t) // 60 * 60); x = int(t); n = 0
        l = z.label(x // 60 * 60) + 60; w = 86400
        while n < 60000 and w < 3000 * 86400:
            for c in cal.labels(l, l + w):
                n += 1
                if per(c) != p0: return c - z.off(c)
            l += w; w *= 2
        raise Stop()
    def after(x, N):
        if pc and P(N // 60 * 60) != P(int(x) // 60 * 60): raise Stop()
        return nextper(x, N) if pc else occ(x)
    N = None
    high = []                                                      # [(from, to)] of high load, real time
    c = None
    off = 0
    evs = []
    for q in sc['ops']:
        t = rt + q['t'] + off
        if q['k'] == 'susp': evs.append((t, 'susp', t + q['s'])); off += q['s']
        elif q['k'] == 'load':
            if q['v'] and c is None: c = t
            elif not q['v'] and c is not None: high.append((c, t)); c = None
        else: evs.append((t, q['k'], rt + q['to'] + off))
    end += off
    if c is not None: high.append((c, end + 1e6))
    def missed(s, boot, res):
        nonlocal N
        if boot and 'runatreboot' in o or res and 'runatresume' in o:
            if N is not None and N <= s and not (pc and P(int(s) // 60 * 60) == P(N)): exp.append((s, 'down', z.label(N), z.label(N), z.label(int(s) // 60 * 60)))
            N = int(s); return
        if N is None: N = occ(s); return
        if N > s: return
        n = occ(s)
        if not pc and 'bootrun' in o: pass
        elif not pc or P(n) != P(N): exp.append((s, 'down', z.label(N), z.label(N), z.label(n)))
        N = n
    que = [None]                                                  # the last minute of the interval for which it waits
    def advance(a, b, ready):
        """it is up from a to b, and runs jobs from ready on"""
        nonlocal N
        while True:
            if que[0] is not None:
                M = que[0]; x = max(a, ready); lo = next(((h0, h1) for h0, h1 in high if h0 <= x < h1), None)
                if lo is None: raise Stop()
                if lo[1] < M - 35 and lo[1] + 35 < b: que[0] = None; R.cover('waited for the load'); continue
                if lo[1] > M + 40:
                    if M + 40 < b or a > M + 5:
                        X = max(M + 1, a); n = occ(X); n2 = occ(X + 35)
                        if n != n2: raise Stop()
                        if P(n) != P(M): exp.append((X, 'lavg', que[1] - 60, z.label(int(X + 35) // 60 * 60), z.label(n)))
                        else: R.cover('another interval of the period')
                        que[0] = None; N = n; continue
                    if b < M - 5: return                             # suspended while it waits
                raise Stop()
            x = max(N, ready)
            if x > b - 3:
                if x < b + 3: raise Stop()
                return
            if lav:
                hi = next(((h0, h1) for h0, h1 in high if h0 - 3 <= x < h1 + 3), None)
                if hi is None and x > N + .2:
                    M = N; k = 0
                    while cal.match(z.label(M + 60)) and P(M + 60) == P(N) and k < 100: M += 60; k += 1
                    if x > M - 3: raise Stop()                       # due in the first seconds, at the end of its interval
                if hi is not None:
                    if x < hi[0] + 3 or x > hi[1] - 3: raise Stop()
                    if 'strict(0)' in o: raise Stop()
                    M = N; k = 0
                    while cal.match(z.label(M + 60)) and P(M + 60) == P(N) and k < 50000: M += 60; k += 1
                    que[:] = [M, z.label(N)]; N = nextper(N); a = max(a, x); continue
                elif any(x <= h0 <= x + 3 for h0, h1 in high): raise Stop()
            R.cover('run'); N = after(x, N); a = x
    s = rt + sc['start']; missed(s, True, False); a = s; ready = s + sc['fs']
    for t, k, to in evs:
        if any(t < q < to for q in trs): raise Stop()
        advance(a, t, ready)
        if k == 'susp': missed(to, False, True); a = to; ready = to + (.1 if ready <= t else max(0, ready - t))
        else:
            missed(to, k == 'boot', False); a = to; ready = to + sc['fs']
            if que[0] is not None: raise Stop()
    advance(a, end, ready)
    return exp

def check(sc, tr, R):
    if not tr.daemons: return
    nt = notices(sc, tr, R)
    if nt is None: return
    R.ok(len(tr.mails), 'mail')
    if sc['mode'] == 'full': return check_full(sc, tr, R, nt)
    rt = sc['rt']
    for j in sc['jobs']:
        if not j['notice']: R.ok(1, 'job without notice'); continue
        cal = Cal(j['sets']); z = Zone(j['tz'] or sc['zone']); a0, b0 = rt - 40 * 86400, int(tr.real(tr.T) // U) + 40 * 86400
        if any(z.off(q) != z.off(q + 86400) for q in range(a0, b0, 86400)): R.cover('clock change in the zone: not judged'); continue
        per = None
        if j['kind'] == '%': per = (lambda l, k=j['key']: p03.period(k, l)) if j['key'] in p03.LY else p03.Spans(j['key'], j['sets'], False).period
        else: per = lambda l: l
        try: exp = expect(sc, j, cal, z, per, [], rt, R)
        except Stop: R.cover('on an edge: not judged'); continue
        got = [x for x in nt[j['id']] if x[1] != 'full']; rest = list(got)
        for T, k, s0, s1, n in exp:
            c = [x for x in rest if abs(tr.real(x[0]) / U - T) < (8 if k == 'down' else 45) and x[1] == k]
            w = '%s (zone %s)' % (j['line'], j['tz'] or sc['zone'])
            if not c: R.fail('missing', 'job %s was missed at %s, but no mail was sent at %s' % (w, show(s0), show(z.label(int(T))))); return
            m = next((x for x in c if s0 <= x[2] <= s1 and x[3] == n), None)
            if m is None:
                x = c[0]
                if not s0 <= x[2] <= s1: R.fail('wrong-since', 'job %s was missed at %s, the mail says %s' % (w, show(s0), show(x[2])), x[0]); return
                R.fail('wrong-next', 'job %s runs next at %s, the mail says %s' % (w, show(n), show(x[3])), x[0]); return
            rest.remove(m); R.ok(1, k + ' ' + j['kind'])
        if rest: x = rest[0]; R.fail('spurious', 'job %s (zone %s) did not miss a run, but a mail says it did not run since %s' % (j['line'], j['tz'] or sc['zone'], show(x[2])), x[0]); return
        R.ok(1, 'job with notice')

def check_full(sc, tr, R, nt):
    s = tr.daemons[0].r // U; al = all(j['notice'] for j in sc['jobs']); due = {}; adds = {}
    for j in sc['jobs']:
        z = Zone(j['tz'] or sc['zone']); cal = Cal(j['sets']); O = [t for t in range(int(s) // 60 * 60 + 60, int(tr.real(tr.T) // U), 60) if cal.match(z.label(t))]; M = []
        if z.off(int(s) - 86400) != z.off(int(s) + 2 * 86400): return R.cover('clock change in the zone: not judged')
        if any(abs(o - s - sc['fs']) < 4 for o in O): return R.cover('on an edge: not judged')
        for t, k, a, n in nt[j['id']]:
            T = int(tr.real(t) // U); T -= T % 60
            if T in M: return R.fail('twice', 'two mails about the run of %s at %s' % (j['line'], show(a)), t)
            if T not in O or tr.real(t) / U > max(T, s + sc['fs']) + 5: return R.fail('spurious', 'a mail says that %s did not run at %s, when it is not due' % (j['line'], show(a)), t)
            if a != z.label(T): return R.fail('wrong-time', 'job %s: the mail of %s says %s' % (j['line'], show(z.label(T)), show(a)), t)
            if k != 'full': return R.fail('reason', 'job %s: the mail does not give the full queue as the reason' % j['line'], t)
            M.append(T)
        n = len(tr.of(j['id']))
        if n > len(O): return R.fail('too-many', 'job %s ran %d times, due %d times' % (j['line'], n, len(O)), tr.T)
        if j['notice']:
            if n + len(M) != len(O): return R.fail('conservation', 'job %s was due %d times: it ran %d times and %d mails say that it did not' % (j['line'], len(O), n, len(M)), tr.T)
            R.ok(len(M), 'full ' + sc['kind'])
        for t in O:
            if t in M: due.setdefault(t, 0); due[t] += 1
            else: adds.setdefault(t, 0); adds[t] += 1
    if not al: return
    st = sorted(x.r / U for x in tr.jobs)
    for T in due:
        q = sum(n for t, n in adds.items() if t <= T) - sum(1 for x in st if x < T - 1)
        if q < sc['q']: return R.fail('not-full', 'mails say that the queue was full at %s, but it held no more than %d of %d jobs' % (show(T), q, sc['q']), (T - sc['rt']) * U)
