"""P05: boot, resume, once, volatile and bootrun options decide what runs after a restart."""
from common import *
from p04 import dur
QUICK = 2000
U = 1000000

def gen(rng, i, tier):
    end = rng.choice([3600, 4 * 3600, 12 * 3600, 3 * 86400])
    end = rng.randint(end // 2, end)
    sc = new_sc(rng, end, firstsleep=rng.choice([None, None, 1, 20, 45]), save=rng.choice([None, None, 60, 300, 1000]), kill=rng.random() < .25, daemon_may_die=True)
    sc['rt'] = rng.randint(ts(2005, 1, 1), ts(2035, 1, 1))
    users = rng.sample(US[:4], rng.randint(1, 2))
    for k in range(rng.choice([1, 2, 3, 5, 8])):
        u = rng.choice(users); o = []; j = dict(id=k + 1, user=u)
        dd = rng.choice([0, 0, 0, 0, 1, 1, 40]); j['d'] = dd
        cmd = 'J%d%s' % (k + 1, ' d%d' % dd if dd else '')
        if rng.random() < .12:
            if dd == 40: dd = j['d'] = 1; cmd = 'J%d d1' % (k + 1)
            s = rng.choice(['reboot', 'resume']); j.update(kind='@', shortcut=s, F=0, Q=None, o=['runatreboot' if s == 'reboot' else 'runatresume', 'runonce'], cmd=cmd, line='@%s %s' % (s, cmd))
        else:
            td = rng.random() < .55
            if not td and dd == 40: dd = j['d'] = 1; cmd = 'J%d d1' % (k + 1)
            for x, p in (('runatreboot', .35), ('runatresume', .3), ('runonce', .2), ('bootrun' if td else 'rebootreset', .4), ('volatile', .25)):
                if rng.random() < p: o.append(x)
            if sc['kill'] and 'runonce' in o: o.remove('runonce')
            if 'runonce' not in o and td and 'volatile' in o: o.remove('volatile')
            j['o'] = list(o)
            tx = [rng.choice([x, x + '(true)', x + '(yes)', x + '(1)']) if x != 'bootrun' else rng.choice(['bootrun', 'b', 'b(true)']) for x in o]
            for x in ('runatreboot', 'runatresume', 'runonce', 'bootrun', 'volatile'):
                if x not in o and rng.random() < .08: tx.append(x + rng.choice(['(false)', '(no)', '(0)']))
            if td:
                iv = rng.choice([7, 10, 15, 20, 30]) if end <= 43200 else rng.choice([20, 30, 60, 180])
                if 'runonce' not in o and rng.random() < .15: j['lv'] = 35; tx.append('lavg1(%s)' % rng.choice(['3', '2.5', '10']))
                f = ['%d-59/%d' % (rng.randint(0, iv - 1), iv) if iv < 60 else str(rng.randint(0, 59)), '*' if iv <= 60 else '*/3', '*', '*', '*']
                mi = sorted(range(int(f[0].split('-')[0]), 60, iv)) if iv < 60 else [int(f[0])]
                j.update(kind='&', spec=f, sets=[mi, list(range(0, 24, 1 if iv <= 60 else 3)), list(range(1, 32)), list(range(1, 13)), list(range(7))], opts=tx, cmd=cmd)
            else:
                Q = rng.randint(90, 2400) if end <= 43200 else rng.randint(600, 20000); F = Q
                if rng.random() < .5: F = rng.choice([0, rng.randint(1, 60), rng.randint(60, 2000)]); tx.append('first(%s)' % (dur(rng, F) if F else '0'))
                j.update(kind='@', F=F, Q=Q, opts=tx, spec=dur(rng, Q), cmd=cmd)
            j['line'] = job_line(rng, j)
        sc['jobs'].append(j)
    ops = []; t = 20; up = 5
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        t += rng.uniform(.5, 1) * rng.choice([60, 300, 1000, end / 4, end / 8])
        if t > end - 60: break
        k = rng.choice(['restart', 'reboot', 'reboot', 'power', 'suspend', 'suspend', 'suspend'] + (['kill'] if sc['kill'] else []))
        gap = rng.choice([2, 5, 30, 300, 1500, 7200])
        if k == 'suspend': t = max(t, up + (20 if sc['firstsleep'] is None else sc['firstsleep']) + 6 + rng.random())
        else: up = t + gap
        if k == 'suspend': ops.append(dict(t=round(t, 3), k=k, dur=rng.choice([5, 20, 100, 900, 3600, 30000]) + round(rng.random(), 3))); t += 30; continue
        ops.append(dict(t=round(t, 3), k=k, gap=gap)); t += gap + 10
    sc['end'] = int(max(end, t + 100))
    if rng.random() < .3: ops += [o for o in noise(rng, sc['end'] - 1) if o['k'] not in ('z', 'usr1')]
    ops.sort(key=lambda o: o['t']); sc['ops'] = ops
    return sc

def build(sc):
    p = base(sc); tables(p, 1, sc['jobs']); args = []
    if sc['firstsleep'] is not None: args += ['-l', str(sc['firstsleep'])]
    if sc['save'] is not None: args += ['-s', str(sc['save'])]
    p.daemon(5, args); n = 1
    for o in sc['ops']:
        if do_noise(p, o): continue
        k = o['k']
        if k == 'suspend': p.op(o['t'], 'suspend', int(o['dur'] * 1e6)); continue
        if k in ('restart', 'reboot'): p.op(o['t'], 'sig', 'daemon', 15)
        elif k == 'kill': p.op(o['t'], 'sig', 'daemon', 9)
        else: p.op(o['t'], 'crash')
        if k in ('reboot', 'power'): p.op(o['t'] + o['gap'] - .01, 'wiperun')
        p.daemon(o['t'] + o['gap'], args, name='d%d' % n); n += 1
    return p

def check(sc, tr, R):
    fs = sc['firstsleep'] if sc['firstsleep'] is not None else 20
    S = sc['save'] or 1800
    ds = tr.daemons; downs = [o for o in sc['ops'] if o['k'] in ('restart', 'reboot', 'power', 'kill')]
    if len(ds) != len(downs) + 1: return
    # a start while the previous daemon still waits for a job is refused: such histories are not judged
    if any(d.end is not None and d.end_by == 'exit' and d.st != 0 for d in ds): R.cover('skipped: overlapping start'); return
    if any(a.end is None or a.end > b.t for a, b in zip(ds, ds[1:])): R.cover('skipped: overlapping start'); return
    ctx = ['boot'] + ['boot' if o['k'] in ('reboot', 'power') else 'restart' for o in downs]
    lost = [False] + [o['k'] in ('power', 'kill') for o in downs]
    dq = sum(j['d'] + .5 for j in sc['jobs'] if 'bootrun' in j['o']) + sum(j['d'] + .5 for j in sc['jobs'] if any(lost)) 
    for j in sc['jobs']:
        f = (judge_td if j['kind'] == '&' else judge_up)(sc, tr, R, j, ds, ctx, lost, fs, S, dq)
        if f: R.fail(*f); return

def judge_td(sc, tr, R, j, ds, ctx, lost, fs, S, dq):
    cal = Cal(j['sets']); o = j['o']; once = 'runonce' in o; runs = tr.of(j['id'])
    has = False                                        # has run in this epoch: True, False, or None (not known)
    desc = '"%s"' % j['line'].replace('\n', ' / ')
    carry = False                                      # it may have been waiting in the queue when the daemon stopped
    for i, d in enumerate(ds):
        s, e = d.t, d.end if d.end is not None else tr.T
        term = d.term if d.term is not None else e
        if ctx[i] == 'boot' or 'volatile' in o: has = False
        W = []                                        # windows: [lo, hi, mandatory, kind]
        rs, re_ = d.r, tr.real(e)
        # what was missed while it was down
        if i:
            pr = ds[i - 1]; a = pr.end_r; sure = prob = False
            if 'bootrun' in o and not (ctx[i] == 'boot' and 'runatreboot' in o):
                ms = [m * U for m in cal.labels((a - (S + 60) * U if lost[i] else a) // U - 120, rs // U + 1)]
                sure = any(a + 2 * U < m < rs - 2 * U for m in ms)
                prob = any((pr.r if lost[i] else a - (fs + 3 + 70) * U) - 2 * U <= m <= rs + U for m in ms)
                # the planned time of a runonce job that has run stays in the past: whether that counts as missed is not specified
                if once and any(x.t < s for x in runs): prob = True
            if sure or prob: W.append([s + (fs - 1.5) * U, s + (fs + 4 + dq) * U, sure, 'bootrun'])
            if lost[i] and any(x.t >= pr.t and x.t <= pr.end and x.t >= pr.end - (S + 60) * U for x in runs): W.append([s + (fs - 1.5) * U, s + (fs + 4 + dq) * U, False, 'interrupted'])
        if ctx[i] == 'boot' and 'runatreboot' in o: W.append([s + (fs - 1.5) * U, s + (fs + 4) * U, True, 'boot'])
        sus = [(t, us) for t, us in tr.susp if s <= t < e]
        spans = []; c = s
        for t, us in sus: spans.append((c, t)); c = t
        spans.append((c, e))
        for (x0, x1), k in zip(spans, range(len(spans))):
            r0 = tr.real(x0)                               # the wall clock is continuous within a span
            for m in cal.labels((r0 - 3 * U) // U, (r0 + x1 - x0 + 3 * U) // U):
                t = x0 + m * U - r0
                if t < x0 - 2 * U or t > x1 + 2 * U: continue
                if t < s: continue
                if t <= s + (fs + 1.2) * U: 
                    if t + 3 * U > s + fs * U: W.append([t - 100000, max(t, s + fs * U) + 4 * U, False, 'edge'])
                    else: W.append([t - 100000, s + (fs + 4) * U, t > s + 1.2 * U, 'in the first sleep'])
                    continue
                near = abs(t - x0) < 2 * U and k > 0 or abs(t - x1) < 2 * U
                W.append([t - 100000, t + 4 * U, not near, 'match'])
            if k < len(sus):
                us = sus[k][1]; ra = r0 + x1 - x0; ms = [m * U for m in cal.labels(int(ra // U) - 2, int((ra + us) // U) + 2)]
                lo, hi = x1 - 50000, max(x1, s + fs * U) + 5 * U
                if 'runatresume' in o: W.append([lo, hi, True, 'resume'])
                elif 'bootrun' in o:
                    sure = any(ra + 2 * U < m < ra + us - 2 * U for m in ms); prob = any(ra - 2 * U <= m <= ra + us + 2 * U for m in ms)
                    if once and any(x.t < lo for x in runs): prob = True
                    if sure or prob: W.append([lo, hi + dq * U, sure, 'bootrun'])
                W.append([x1 - 50001, x1, None, 'RESUME'])
            if carry: W.append([s + (fs - 1.5) * U, s + (fs + 4 + dq) * U, False, 'interrupted'])
        lv = j.get('lv', 0)                               # a load average job waits for the next look at the load
        for w in W:
            if w[2] is None: continue
            w[1] += lv * U
            for t, us in sus:
                if w[0] - U <= t <= w[1] + U:
                    if w[3] in ('bootrun', 'interrupted'): w[1] = max(w[1], t + (5 + fs + dq) * U)
                    elif w[3] != 'resume': w[2] = False
        carry = any(w[2] is not None and (lv or w[3] in ('bootrun', 'interrupted', 'boot')) and w[1] > term - 2 * U for w in W)
        W.sort(key=lambda w: (w[0], w[3] == 'interrupted'))
        xs = [x for x in runs if s <= x.t <= e]; used = set()
        busy = lambda w: any(x.t < w[1] and (x.end is None or x.end > w[0]) and x not in nowuse for x in runs)
        q = 0
        for w in W:
            if w[2] is None:
                if 'runatresume' in o: has = False
                continue
            nowuse = [x for x in xs if id(x) not in used and w[0] <= x.t <= w[1]][:1]
            allowed = not (once and has is True) or w[3] == 'interrupted'      # that one belongs to the previous period
            if nowuse and allowed:
                used.add(id(nowuse[0])); has = has if not once else True if w[3] != 'interrupted' else (has or None); R.ok(1, 'run: ' + w[3]); continue
            if nowuse: 
                # it may belong to a later window
                if any(v[0] <= nowuse[0].t <= v[1] and v is not w for v in W[W.index(w) + 1:]): continue
                return ('once', 'job %s with runonce was run again in the same period' % desc, nowuse[0].t)
            if not allowed: R.ok(1, 'not run again: runonce'); continue
            if once and busy(w): has = None                # skipped, since it is still running: that counts or not
            if has is None and once: continue
            if w[2] and w[1] < term - U and not busy(w) and not any(v is not w and v[0] < w[1] + 2 * U and v[1] > w[0] - 2 * U for v in W if v[2] is not None):
                return ('missing-' + w[3].replace(' ', '-'), 'job %s was not run (%s)' % (desc, w[3]), int(w[0]))
        for x in xs:
            if id(x) not in used and not any(w[0] <= x.t <= w[1] for w in W if w[2] is not None and w[3] in ('bootrun', 'interrupted', 'edge', 'in the first sleep') or True and w[2] is not None and w[0] <= x.t <= w[1] and False):
                return ('unexpected', 'job %s ran although nothing asked for it' % desc, x.t)
        R.ok(1)
        if d.end is None: return

def judge_up(sc, tr, R, j, ds, ctx, lost, fs, S, dq):
    o = j['o']; once = 'runonce' in o; runs = tr.of(j['id']); F, Q = j['F'], j['Q']
    desc = '"%s"' % j['line'].replace('\n', ' / '); short = 'shortcut' in j
    has = False; rem = [(F, F)]; tol = 2.6
    for i, d in enumerate(ds):
        s = d.t; e = d.end if d.end is not None else tr.T; term = d.term if d.term is not None else e
        boot = ctx[i] == 'boot'; new = i == 0
        if boot or 'volatile' in o: has = False
        if boot and 'runatreboot' in o: rem2 = [(0, 0)]
        elif new or 'volatile' in o or boot and ('rebootreset' in o or once): rem2 = [(F, F)]
        else:
            rem2 = rem
            if lost[i]: return                            # what a crash loses is the subject of P04
        if lost[i] and not (boot and 'runatreboot' in o) and any(x.t >= ds[i - 1].end - (S + 60) * U and x.t >= ds[i - 1].t and x.t <= ds[i - 1].end for x in runs): opt = True
        else: opt = False
        if opt: return                                # the subject of P28
        sus = [t for t, us in tr.susp if s <= t < e]; ns = len(sus)
        xs = [x for x in runs if s <= x.t <= e]
        alts = rem2; last = s; sp = [t for t in sus]; pend = None      # pend: a run asked by a resume
        evs = sorted([(t, 0, None) for t in sp] + [(x.t, 1, x) for x in xs], key=lambda v: v[:2])
        for t, k, x in evs + [(term, 2, None)]:
            # is something overdue at t?
            if not (once and has):
                busy = any(y.t < t and (y.end is None or y.end > t - 3 * U) for y in runs) or any(y.t < t and (y.end is None or y.end > last + a[0] * U - 3 * U) and y.t != last for y in runs for a in alts)
                if pend is not None and t > pend and k != 1 and not busyat(runs, pend): return ('missing-resume', 'job %s was not run at the resume' % desc, pend)
                hi = max((max(a[1] * U + last, s + fs * U if last == s else 0) for a in alts), default=None)
                if k != 1 and hi is not None and hi + (tol + 1.2 * ns) * U < t and not busyat(runs, hi): return ('missing', 'job %s was not run %.0f s after %s' % (desc, (hi - last) / U, 'the start of the daemon number %d' % i if last == s else 'its last run'), int(hi))
            if k == 0:
                if 'runatresume' in o: has = False; pend = max(t, s + fs * U) + 6 * U
                continue
            if k == 2: break
            if once and has:
                return ('once', 'job %s with runonce was run again in the same period' % desc, t)
            dt = (t - last) / U
            lim = lambda a: a[0] - tol - ns <= dt <= max(a[1], fs if last == s else 0) + tol + 1.2 * ns + (j['d'] if False else 0)
            isres = 'runatresume' in o and any(y <= t <= max(y, s + fs * U) + 6 * U for y in sus)
            if isres or any(lim(a) for a in alts):
                R.ok(1, 'uptime run: ' + ('resume' if isres else 'boot' if boot and last == s and 'runatreboot' in o else 'regular'))
                if isres: pend = None
                special = isres or (boot and last == s and 'runatreboot' in o)
                if once: has = True
                na = [(Q, Q)] if Q else []
                if special and Q: na += [(max(0, a[0] - dt) if True else 0, max(0, a[1] - dt) + 1) for a in (alts if isres else [(F, F)] + rem)]
                alts = na; last = t
                continue
            if short and not new and j['shortcut'] == 'resume' and boot: continue
            if opt and t <= s + (fs + 4 + dq) * U: opt = False; continue
            return ('unexpected', 'job %s ran %.1f s after %s, instead of %s' % (desc, dt, 'the start of the daemon number %d' % i if last == s else 'its last run', alts), t)
        R.ok(1)
        if d.end is None: return
        L = (term - last) / U
        rem = [(max(0, a[0] - L - 1.2 * (ns + 1)), max(0, a[1] - L) + 1.2 * (ns + 1)) for a in alts]

def busyat(runs, t): return any(y.t < t and (y.end is None or y.end > t - 8 * U) and y.end != y.t and (y.end is None or y.end - y.t > U // 2) for y in runs)
