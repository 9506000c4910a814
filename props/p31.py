"""P31: what fcron logs about the jobs is true, complete, and the same in every log."""
from common import *
from simlib import ROOT_ENV
QUICK = 1500
THOROUGH = 20000
U = 1000000
CUT = 175 - 1 - 13                                        # a longer message is cut short and says so
TEXT = ['', ' # a %s b %d %n', ' # 100%% sure', ' # ' + 'x' * 60, ' # ' + 'long text ' * 30, " # it's 'quoted'", ' # "q" $HOME `x` \\', ' # ends with %', ' # tab\there']

def cutmsg(m): return m if len(m.encode('latin1', 'replace')) < 175 else m[:CUT] + ' (truncated)'

def gen(rng, i, tier):
    end = rng.randint(1200, 5400)
    sc = new_sc(rng, end); pam = rng.random() < .1; sc['tz'] = rng.choice(ZONES) if rng.random() < .4 else None
    users = rng.sample(US[:4], rng.randint(1, 3)); sc['heads'] = {}
    for u in users:
        if rng.random() < .4: sc['heads'][u] = '!timezone(%s)\n' % rng.choice(ZONES)
    for k in range(rng.choice([1, 2, 3, 5, 8])):
        u = rng.choice(users); j = dict(id=k + 1, user=u); o = []; x = rng.choice([0, 0, 0, 1, 3, 255]); sig = rng.choice([0, 0, 0, 0, 9, 15, 11]); out = rng.choice([0, 0, 1, 300]); d = rng.choice([0, 0, 1, 5, 70])
        cmd = 'J%d' % (k + 1) + (' d%d' % d if d else '') + (' o%d' % out if out else '') + (' k%d' % sig if sig else ' x%d' % x if x else '') + rng.choice(TEXT)
        j.update(x=0 if sig else x, sig=sig, d=d, cmd=cmd.strip(), nolog=rng.random() < .3)
        o.append(rng.choice(['nolog', 'nolog(true)', 'nolog(1)']) if j['nolog'] else rng.choice(['nolog(false)', 'nolog(0)', 'mail', 'mail', 'mail']))
        if pam and rng.random() < .6: o.append('mail(false)')
        elif rng.random() < .3: o.append(rng.choice(['mail(false)', 'forcemail', 'erroronlymail', 'mailto()', 'mailto(carol)']))
        if rng.random() < .25: o.append('serial')
        if rng.random() < .3: iv = rng.choice([60, 90, 200, 500]); j.update(kind='@', opts=o, spec='%ds' % iv if False else str(max(1, iv // 60)), cmd=j['cmd'])
        else: iv = rng.choice([1, 2, 5]); j.update(kind='&', opts=o, spec=['*/%d' % iv if iv > 1 else '*', '*', '*', '*', '*'])
        if d == 70 and rng.random() < .4: o.append('exesev')
        j['line'] = (('@%s %s ' % (','.join(o), j['spec'])) if j['kind'] == '@' else '&%s %s ' % (','.join(o), ' '.join(j['spec']))) + j['cmd']
        if j['line'].endswith('\\'): j['line'] += ' '
        sc['jobs'].append(j)
    sc['dest'] = rng.choice(['s', 's', 'sf', 'sf', 'f', 'f', 'y', 'sF', 'F'])     # F: a log file that cannot be opened
    n = rng.choice([0, 0, 0, 1, 2])
    ops = []; t = 100
    for _ in range(n):
        t += rng.randint(100, end // 2); gap = rng.choice([75, 150])
        if t + gap > end - 120: break
        ops.append(dict(t=t + rng.random(), k='restart', gap=gap)); t += gap + 100
    for _ in range(rng.choice([0, 0, 1, 3])): ops.append(dict(t=round(rng.uniform(40, end - 90), 3), k=rng.choice(['usr2x2', 'runnow' if n else 'usr1', 'runnow', 'runnow', 'dynls'])))
    sc['ops'] = sorted(ops, key=lambda o: o['t']); f = rng.random(); F = []
    a = rng.uniform(60, end - 100); b = a + rng.choice([60, 130, 600])
    if pam: sc['pam'] = '%s:%d:%d' % (rng.choice(users), rng.choice([0, 2, 2, 3, 4]), rng.choice([6, 7, 12, 4]))
    elif f < .5: pass
    elif f < .57: F.append(['d[0-9]', 'fork', 1, rng.choice([1, 3, 1000]), 'E', rng.choice([11, 12]), a, b])
    elif f < .64: F.append(['d[0-9].*', 'fork', 1, rng.choice([1, 3, 1000]), 'E', 11, a, b])
    elif f < .71: F.append(['d[0-9].*', 'execve', 1, rng.choice([1, 3, 1000]), 'E', rng.choice([12, 2, 13, 26]), a, b])
    elif f < .78: F.append(['d[0-9].*', 'open', 1, rng.choice([1, 3, 1000]), 'E', rng.choice([24, 23, 28]), a, b])
    elif f < .84: F.append([rng.choice(['d[0-9].*', 'd[0-9]']), 'pipe', 1, rng.choice([1, 3, 1000]), 'E', 24, a, b])
    elif f < .9: F.append(['d[0-9].*', rng.choice(['setuid', 'setgid', 'setgroups', 'chdir']), 1, rng.choice([1, 3, 1000]), 'E', 11, a, b])
    sc['faults'] = F; sc['win'] = [a, b]
    return sc

def build(sc):
    p = base(sc); p.params['log'] = 1; tables(p, .5, sc['jobs'], sc['heads'])
    if 'pam' in sc: p.head.append('pam ' + sc['pam'])
    p.b('mkdir', '/var/log', '0', '0', '755')
    args = []
    if 's' not in sc['dest']: args.append('-y')
    if 'f' in sc['dest']: args += ['-p', '/var/log/fl']
    if 'F' in sc['dest']: args += ['-p', '/nosuch/fl']
    env = ROOT_ENV + (['TZ=' + sc['tz']] if sc['tz'] else []); p.daemon(3, args, env=env); n = 1
    for o in sc['ops']:
        if o['k'] == 'restart': p.op(o['t'], 'sig', 'daemon', 15); p.daemon(o['t'] + o['gap'], args, env=env, name='d%d' % n); n += 1
        elif o['k'] == 'usr2x2': p.op(o['t'], 'sig', 'daemon', 12); p.op(o['t'] + .5, 'sig', 'daemon', 12)
        elif o['k'] == 'usr1': p.op(o['t'], 'sig', 'daemon', 10)
        elif o['k'] == 'runnow': p.fcrondyn(o['t'], 'root', 'runnow %d' % 1)
        elif o['k'] == 'dynls': p.fcrondyn(o['t'], 'root', 'ls')
    for f in sc['faults']: p.fault(*f)
    p.op(sc['end'] - .5, 'cat', '/var/log/fl')
    return p

LINE = re.compile(r'^(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d) +(INFO|WARN|ERROR|DEBUG) (.*)$', re.S)
PRI = {'INFO': 5, 'WARN': 4, 'ERROR': 3, 'DEBUG': 7}

def lines(R, what, txt):
    """the records of a log file: (date, severity, message)"""
    out = []
    for l in txt.split('\n')[:-1]:
        m = LINE.match(l)
        if not m and out and out[-1][1] == 7: continue     # a debug message of several lines
        if not m: R.fail('line', 'a line of %s is damaged: %r' % (what, l[:150])); return None
        out.append((ts(*map(int, m.groups()[:6])), PRI[m.group(7)], m.group(8)))
    if txt and not txt.endswith('\n'): R.fail('line', 'the last line of %s is cut short: %r' % (what, txt[-100:])); return None
    return out

def check(sc, tr, R):
    Z = Zone(sc["tz"] or 'UTC'); loc = lambda us: us // U + Z.off(us // U)      # what a clock on the wall shows
    ds = tr.daemons; sysl = 's' in sc['dest']; J = {j['id']: j for j in sc['jobs']}
    if any(d.end is not None and d.end_by == 'exit' and d.st != 0 for d in ds): R.cover('skipped: overlapping start'); return
    names = {d.name for d in ds}; clean = not sc['faults'] and 'pam' not in sc
    if not sysl and any(re.match(r'd\d+(\.\d+)*$', e['p']) for e in tr.logs): e = tr.logs[0]; return R.fail('syslog', 'fcron -y writes to the system log: %r' % e['m'], e['t'])
    F = None
    for e in tr.files:
        if e['path'] == '/var/log/fl' and 'f' in sc['dest']:
            if e.get('err'): return R.fail('nofile', 'the log file of -p does not exist', e['t'])
            F = lines(R, 'the log file', e['data'])
            if F is None: return
    if 'f' in sc['dest'] and F is None: return
    rec = {}                                                # process -> its records in the system log
    for e in tr.logs: e['pri'] < 7 and rec.setdefault(e['p'], []).append(e)
    # every started process of the daemon runs its job, or an error is logged
    sups = {}; bad = []
    for e in tr.ev:
        if e['e'] == 'fork' and e['by'] in names: sups[e['p']] = Obj(t=e['t'], job=None, end=None, forked=False, st=None, failed=None)
        elif e['e'] == 'fork' and e['by'] in sups: sups[e['by']].forked = True
        elif e['e'] == 'exit' and e['p'] in sups: sups[e['p']].end = e['t']; sups[e['p']].st = e['st']
        elif e['e'] == 'fault' and e['p'] in names and e.get('sys') == 'fork': bad.append((e['p'], e['t']))
    for x in tr.jobs:
        s = sups.get(x.p.rsplit('.', 1)[0])
        if s: s.job = x
    mailed = {e['p'] for e in tr.mails}
    mf = {e['p'] for e in tr.execfails} | {e['p'] for e in tr.faults}
    want = []; errs = 0
    maybe = set()                                           # jobs whose records are not judged one by one
    for n, s in sorted(sups.items()):
        mine = rec.get(n, []); fam = [e for p in rec for e in rec[p] if p == n or p.startswith(n + '.')]
        er = [e for e in fam if e['pri'] <= 3]
        if s.job is None or s.job.id not in J:
            if s.job is None and s.end is not None and s.end < tr.T - 2 * U:
                errs += 1
                if sysl and not er: return R.fail('silent', 'a job could not be run and no error is logged (%s, status %s)' % (n, s.st), s.t)
                R.ok(1, 'a failure is logged')
            if s.job is None:
                for e in mine:
                    m = re.match(r"Job '(.*)' (completed|started)", e['m'], re.S)
                    if m and m.group(2) == 'completed': return R.fail('false', 'the log says %r, but the job was not run' % e['m'], e['t'])
            continue
        x = s.job; j = J[x.id]; u = j['user']; w = []
        hurt = any(p == n or p.startswith(n + '.') for p in mf)
        # the command as the table has it
        if not j['nolog']: w.append((x.t, 5, cutmsg("Job '%s' started for user %s (pid %d)" % (j['cmd'], u, x.pid))))
        if x.end is not None and x.end < tr.T - 3 * U:
            ml = ' (mailing output)' if n in mailed else None if hurt else ''
            st = x.st; k = None
            if st is None: continue
            if st == 0: 
                if not j['nolog']: k = (5, "Job '%s' completed" % j['cmd'])
            elif st & 127: k = (3, "Job '%s' terminated due to signal %d" % (j['cmd'], st & 127))
            else: k = (4, "Job '%s' terminated (exit status: %d)" % (j['cmd'], st >> 8))
            if k: w.append((x.end, k[0], [cutmsg(k[1] + ml)] if ml is not None else [cutmsg(k[1]), cutmsg(k[1] + ' (mailing output)')]))
        elif x.end is None and x.t > tr.T - 3 * U: maybe.add(j['cmd'][:80]); continue
        else:
            maybe.add(j['cmd'][:80])
        if sysl:
            got = [e for e in mine if e['m'].startswith("Job '")]
            gi = 0
            for t, pri, m in w:
                ms = m if isinstance(m, list) else [m]
                if gi >= len(got) or got[gi]['m'] not in ms: return R.fail('missing', 'the log lacks %r%s' % (ms[0], '; it has %r' % got[gi]['m'] if gi < len(got) else ''), t)
                if got[gi]['pri'] != pri: return R.fail('severity', '%r is logged at level %d instead of %d' % (ms[0], got[gi]['pri'], pri), t)
                if abs(got[gi]['t'] - t) > 5 * U and not hurt: return R.fail('late', '%r is logged %.1f s late' % (ms[0], (got[gi]['t'] - t) / U), t)
                gi += 1; R.ok(1, 'job record')
            if gi < len(got) and j['cmd'][:80] not in maybe: return R.fail('extra', 'the log has %r more than it should' % got[gi]['m'], got[gi]['t'])
            if not hurt and not maybe and not sc['faults'] and er and not any(e['m'].startswith("Job '") or 'fopen' in e['m'] for e in er) and 'pam' not in sc: return R.fail('error', 'an error is logged for a job that ran: %r' % er[0]['m'], er[0]['t'])
        else:
            for t, pri, m in w: want.append((t, pri, m if isinstance(m, list) else [m]))
    for p, t in bad:
        if sysl and not any(e['pri'] <= 3 and abs(e['t'] - t) < 2 * U for e in rec.get(p, [])): return R.fail('silent', 'a process could not be started and no error is logged', t)
        R.ok(1)
    if sysl:                                                # the log file holds the same records
        if F is not None:
            a = {}; b = {}
            for e in tr.logs:
                if e['pri'] < 7 and re.match(r'd\d+(\.\d+)*$', e['p']): a.setdefault((e['pri'], e['m']), []).append(loc(tr.real(e['t'])))
            for t, pri, m in F:
                if pri < 7: b.setdefault((pri, m), []).append(t)
            last = max((loc(tr.real(e['t'])) for e in tr.logs), default=0)
            for k in sorted(set(a) | set(b)):
                x, y = sorted(a.get(k, [])), sorted(b.get(k, []))
                if len(x) != len(y):
                    if max(x[-1:] + y[-1:]) > loc(tr.real(tr.T)) - 4: continue
                    if any('fopen' in e['m'] for e in tr.logs): continue
                    return R.fail('file', 'the system log has %r %d times, the log file %d times' % (k[1], len(x), len(y)), None)
                for v, z in zip(x, y):
                    if abs(v - z) > 3: return R.fail('date', 'the log file dates %r %d s off' % (k[1], z - v), None)
                R.ok(1, 'same record in both logs')
    else:
        txt = F if F is not None else None
        for src, rs in (('the log file', F), ('the standard error of fcron -f', None)):
            if src[4] == 's':
                rs = []
                for d in ds:
                    r = [v for v in tr.runs.values() if v.name == d.name]
                    if d.end is None or not r: rs = None; break
                    if any(l and not LINE.match(l) for l in r[0].err.split('\n')): R.cover('skipped: interleaved console'); rs = None; break
                    rs += lines(R, src, r[0].err)
            if rs is None or src[4] == 'l' and sc['faults'] and sc['faults'][0][1] == 'open': continue      # (the log file itself may fail to open)
            er = [r for r in rs if r[1] <= 3]
            if len(er) < errs: return R.fail('silent', '%d jobs could not be run, but %s has only %d errors' % (errs, src, len(er)), None)
            cnt = {}
            for t, pri, m in rs: cnt.setdefault((m, pri), []).append(t)
            used = {}
            for t, pri, ms in want:
                for m in ms:
                    c = cnt.get((m, pri))
                    if c:
                        k = min(range(len(c)), key=lambda q: abs(c[q] - loc(tr.real(t)))); z = c.pop(k)
                        if abs(z - loc(tr.real(t))) > 6 and not sc['faults']: return R.fail('date', '%s dates %r %d s off' % (src, m, z - loc(tr.real(t))), t)
                        R.ok(1, 'job record'); break
                else: return R.fail('missing', '%s lacks %r with severity %d' % (src, ms[0], pri), t)
            if clean:
                for m, pri in cnt:
                    if cnt[m, pri] and m.startswith("Job '") and not any(m[5:].startswith(q[:80]) for q in maybe): return R.fail('extra', '%s has %r %d times more than it should' % (src, m, len(cnt[m, pri])), None)
    if clean and sysl:                                      # the schedule that SIGUSR2 prints is the one that is followed
        dis = [o['t'] * U for o in sc['ops'] if o['k'] in ('restart', 'runnow', 'usr1')]
        for e in tr.logs:
            m = re.match(r"  cmd 'J(\d+)\b.* next exec (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+) \(system time\)$", e['m'], re.S)
            if not m or int(m.group(1)) not in J: continue
            j = J[int(m.group(1))]; v = list(map(int, m.groups()))
            if j['d'] == 70 or 'serial' in j['opts']: continue
            t = ts(*v[1:4], v[5], v[6]); nx = next((x for x in tr.of(j['id']) if x.t > e['t']), None)
            if (t // 86400 + 4) % 7 != v[4]: return R.fail('weekday', 'the printed schedule has a wrong weekday: %r' % e['m'], e['t'])
            if nx is None or any(e['t'] - 60 * U < d < nx.t + U for d in dis) or e['t'] < 30 * U: continue
            if not -3 <= loc(tr.real(nx.t)) - t < (63 if j['kind'] == '@' else 4): return R.fail('schedule', 'the printed schedule says %r, but it runs %d s later' % (e['m'], loc(tr.real(nx.t)) - t), e['t'])
            R.ok(1, 'printed schedule')
    R.cover('destination ' + sc['dest']); R.cover('fault ' + (sc['faults'][0][1] if sc['faults'] else 'pam' if 'pam' in sc else 'none'))
