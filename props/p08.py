"""P08: a full queue rejects jobs without losing queued ones or blocking later ones."""
from common import *
QUICK = 600
U = 1000000
MIN = ['ops', 'jobs']

def gen(rng, i, tier):
    end = rng.choice([3600, 2 * 3600, 4 * 3600])
    rt = rng.randint(ts(2005, 1, 1), ts(2036, 1, 1)) // 60 * 60 + rng.randint(1, 40)
    N = rng.choice([5, 5, 6, 9, 10, 11, 15, 20, 25, 30, 40, None]); lavg = rng.random() < .35
    sc = new_sc(rng, end, rt=rt, firstsleep=rng.choice([1, 5]), m=rng.choice([None, 1, 2, 4]), q=N, lavg=lavg)
    n = N or 30; users = rng.sample(US[:4], rng.randint(1, 3)); nj = rng.choice([3, n // 2 + 1, n, n + 1, n + 5, 2 * n])
    per = rng.choice([1, 2, 5, 10])
    for k in range(nj):
        o = ['lavg1(1)', rng.choice(['lavgonce(0)', 'lavgonce(0)', 'lavgonce(1)'])] if lavg else ['serial']
        if rng.random() < .5: o.append(rng.choice(['noticenotrun', 'noticenotrun(yes)', 'notrun', 'n']) if 0 else 'noticenotrun')
        iv = rng.choice([per, per, per, 2 * per]); st = rng.choice([0, 0, rng.randint(0, iv - 1)])
        d = 0 if lavg and rng.random() < .5 else rng.choice([3, 7, 11, 17, 23, 41, 75, 133])
        cmd = 'J%d%s%s' % (k + 1, ' d%d' % d if d else '', rng.choice(['', '', ' o20', ' x1']))
        j = dict(id=k + 1, user=rng.choice(users), kind='&', spec=['%d-59/%d' % (st, iv), '*', '*', '*', '*'], iv=iv, st=st, opts=o, cmd=cmd, d=d, notice='noticenotrun' in o, once='lavgonce(1)' in o)
        j['line'] = job_line(rng, j); sc['jobs'].append(j)
    ops = []
    if not lavg:
        for _ in range(rng.choice([0, 0, 1, 3])):
            t = rng.randint(2, end // 60 - 3) * 60 - rt % 60 + rng.randint(15, 40)
            ops.append(dict(t=t, k=rng.choice(['edit', 'chld', 'inst']), u=rng.choice(users), a=rng.randint(0, 59)))
    else:
        t = 0
        while True:
            t += rng.choice([10, 20, 40]) * 60; b = t // 60 * 60 - rt % 60 + 20
            if b > end - 120: break
            ops.append(dict(t=b, k='lavg', v=.1))
            if rng.random() < .8: ops.append(dict(t=b + 35, k='lavg', v=9.))
    sc['ops'] = ops
    return sc

def build(sc):
    p = base(sc); p.params['log'] = 1; tables(p, .5, sc['jobs'], users=US); args = ['-l', str(sc['firstsleep'])]
    if sc['m']: args += ['-m', str(sc['m'])]
    if sc['q']: args += ['-q', str(sc['q'])]
    v = 9. if sc['lavg'] else .1
    p.op(2, 'loadavg', v, v, v); p.daemon(3, args)
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if k == 'lavg': p.op(t, 'loadavg', o['v'], o['v'], o['v'])
        elif k == 'edit': p.install(t, o['u'], table(sc['jobs'], o['u']) + '%d * * * * J900\n' % o['a'])
        elif k == 'inst': p.install(t, 'ali', '%d * * * * J901\n' % o['a'])
        elif k == 'chld': p.op(t, 'sig', 'daemon', 17)
    return p

def check(sc, tr, R):
    if not tr.daemons: return
    d0 = tr.daemons[0]; N = sc['q'] or 30; m = sc['m'] or 1; J = {j['id']: j for j in sc['jobs']}
    off = tr.real(d0.t) - d0.t
    batches = {}                                             # due instants (mono) -> jobs
    mm = tr.real(d0.t) // (60 * U) * 60 * U
    while mm - off < tr.T:
        t = mm - off
        if t > d0.t:
            mi = mm // U // 60 % 60; js = [j['id'] for j in sc['jobs'] if mi >= j['st'] and (mi - j['st']) % j['iv'] == 0]
            if t < d0.t + sc['firstsleep'] * U + 2 * U: js and None
            if js: batches[max(t, d0.t + sc['firstsleep'] * U)] = batches.get(max(t, d0.t + sc['firstsleep'] * U), []) + js
        mm += 60 * U
    notr = []
    for e in tr.mails:
        if 'Non-execution' in e['data']:
            x = re.search(r"'J(\d+)\b", e['data'])
            if x: notr.append((e['t'], int(x.group(1))))
    errs = [e['t'] for e in tr.logs if e.get('pri', 9) & 7 <= 3]
    xs = [x for x in tr.jobs if x.id in J]; amb = False
    bt = sorted(batches); fails = []
    if len(set(bt)) != len(bt): return
    for j in sc['jobs']:                                     # nobody is told of a refusal wrongly
        due = [t for t in bt if j['id'] in batches[t]]
        mine = [t for t, i in notr if i == j['id']]
        if mine and not j['notice']: return R.fail('mail', 'job J%d has no noticenotrun but a mail tells that it was refused' % j['id'], mine[0])
        for t in mine:
            if not any(b <= t <= b + 20 * U for b in due): return R.fail('mail', 'a mail tells that job J%d was refused, which was not due' % j['id'], t)
    def refused(i, t, sure):
        """job i was refused at t"""
        if J[i]['notice']:
            n = sum(1 for s, k in notr if k == i and t <= s <= t + 30 * U)
            if n != 1 and t < tr.T - 40 * U: R.fail('mail', 'job J%d was refused but %d mails tell about it' % (i, n), t)
            R.ok(1, 'refused: mail')
        if not any(t - U <= s <= t + 5 * U for s in errs): R.fail('no-error', 'job J%d was refused without any error message' % i, t)
        R.ok(1, 'refused')
    evs = [(t, 0, 'due', batches[t]) for t in bt] + [(x.t, 2, 'start', x) for x in xs] + [(x.end, 1, 'end', x) for x in xs if x.end is not None]
    evs += [(o['t'] * U, 0, 'lavg', o['v']) for o in sc['ops'] if o['k'] == 'lavg']
    evs.sort(key=lambda e: (e[0], e[1]))
    edits = [o['t'] * U for o in sc['ops'] if o['k'] in ('edit', 'inst')]
    if not sc['lavg']:
        q = []                                               # batches: [t, candidates, accepted]
        running = set(); free = d0.t; L = 0
        times = sorted([x.t for x in xs] + [x.end for x in xs if x.end is not None])
        for t, _, k, x in evs:
            if L > 0 and len(running) < m and t - max(free, q[0][0]) > 4 * U and not any(t - 12 * U < e < t for e in edits):
                return R.fail('lost', 'the serial queue holds %d jobs (e.g. from those due at %.1f s: %s) and only %d are running (limit %d), but none is started' % (L, q[0][0] / U, q[0][1], len(running), m), t)
            if k == 'due':
                if t > tr.T - 5 * U: break
                a = bisect.bisect_left(times, t - 2 * U); b = bisect.bisect_right(times, t + int(1.5 * U))
                near = times[a:b]
                if any(z < t + U // 1000 or z > t + U for z in near): R.cover('ambiguous, not judged further'); return
                # starts at the instant itself follow the insertion of all the jobs due
                acc = min(len(x), N - L)
                if acc == len(x): R.ok(acc, 'accepted')
                elif acc == 0:
                    for i in x: refused(i, t, True)
                q.append([t, list(x), acc, acc]); L += acc; R.cover('full' if acc < len(x) else 'not full')
                if L > N: raise RuntimeError('model')
                if acc == 0: q.pop()
            elif k == 'start':
                if J[x.id]['once']: pass
                while q and q[0][2] == 0: q.pop(0)
                if not q: return R.fail('extra', 'serial job J%d was started although the queue is empty: it was refused, not due or already run' % x.id, t)
                # preemption may exchange the order of starts at one instant
                for b in q[:m + 1]:
                    if x.id in b[1] and b[2] > 0 and (b is q[0] or t - free < U): break
                else:
                    return R.fail('lost-or-order', 'serial job J%d was started, but %d of the jobs accepted at %.1f s (among %s) have not been' % (x.id, q[0][2], q[0][0] / U, q[0][1]), t)
                b[1].remove(x.id); b[2] -= 1; L -= 1; running.add(x); R.ok(1, 'accepted: run once')
                if b[2] == 0 and b[3] > 0 and b[1]:
                    for i in b[1]: refused(i, b[0], True)
                while q and q[0][2] == 0: q.pop(0)
                if len(running) > m: return
            elif k == 'end': running.discard(x); free = t
    else:
        # all the jobs wait while the load is high
        high = True; L = 0; cand = {}; changed = d0.t
        inq = {}                                             # job -> queued instances, bounds
        pend = []
        for t, _, k, x in evs:
            if k == 'lavg':
                was = high; high = x > 1; 
                if was != high: changed = t
                if was and not high: ld = L; started = 0; ends = t + 33 * U
            elif k == 'due':
                if t > tr.T - 5 * U: break
                if not high or changed > t - 34 * U and high and False:
                    if not high:
                        # everything runs at once
                        if L == 0 or t > changed + 33 * U: L = 0; pend = []; cand = {}
                        return R.cover('low load, not judged further')
                c = []
                for i in x:
                    if J[i]['once'] and (cand.get(i, 0) > 0 or any(y.id == i and y.t <= t and (y.end is None or y.end > t - 2 * U) for y in xs)):
                        if cand.get(i, 0) == .5: return R.cover('ambiguous, not judged further')
                        continue                             # silently: it is queued or running
                    c.append(i)
                acc = min(len(c), N - L)
                if acc < len(c):
                    R.cover('lavg full')
                    # which ones are refused is told by the mails only
                    if acc == 0:
                        for i in c: refused(i, t, True)
                    else:
                        nn = [i for i in c if J[i]['notice']]; told = sum(1 for s, i in notr if i in nn and t <= s <= t + 30 * U)
                        if told > len(c) - acc: return R.fail('mail', '%d jobs were reported refused although only %d did not find a place' % (told, len(c) - acc), t)
                        if told < len(c) - acc - (len(c) - len(nn)) and t < tr.T - 40 * U: return R.fail('mail', '%d jobs did not find a place in the queue, but only %d mails tell about it' % (len(c) - acc, told), t)
                        if not any(t - U <= s <= t + 5 * U for s in errs): R.fail('no-error', 'jobs were refused without any error message', t)
                        R.ok(len(c), 'refused in part')
                    for i in c:
                        if acc and J[i]['notice'] and not any(s for s, i2 in notr if i2 == i and t <= s <= t + 30 * U): cand[i] = cand.get(i, 0) + 1
                        elif acc and not J[i]['notice']: cand[i] = cand.get(i, 0) + .5 if not J[i]['once'] else .5
                else:
                    for i in c: cand[i] = cand.get(i, 0) + 1
                L += acc
            elif k == 'start':
                if high and t > changed + 2 * U: return R.fail('high-load', 'job J%d was started although the load is too high' % x.id, t)
                L -= 1
                if L < 0: return R.fail('extra', 'load-average job J%d was started although no further job was accepted' % x.id, t)
                if cand.get(x.id, 0) <= 0: return R.fail('extra', 'load-average job J%d was started although it had been refused, was not due or had already been run' % x.id, t)
                cand[x.id] = max(cand[x.id] - 1, 0); R.ok(1, 'lavg: run once')
            if not high and L > 0 and t > changed + 34 * U: return R.fail('lost', '%d jobs accepted in the load-average queue were not started once the load was low' % L, t)
            if not high and L == 0: cand = {}
