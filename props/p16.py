"""P16: only allowed users can change tables, and only their own."""
from common import *
QUICK = 4000
U = 1000000
MIN = ['faults', 'ops', 'init']
NAMES = ['alice', 'bob', 'carol', 'ali', 'root']

def gen_list(rng):
    """a fcron.allow or fcron.deny file, or None when absent"""
    if rng.random() < .25: return None
    L = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.random()
        if k < .5: l = rng.choice(NAMES)
        elif k < .62: l = 'all'
        elif k < .7: l = '#' + rng.choice(['', ' ']) + rng.choice(NAMES + ['all'])
        elif k < .9: l = rng.choice(['', ' ', 'Alice', 'ALL', 'alice bob', 'alicex', 'xali', 'nobody', 'al', '-', 'all users', '*', 'alice#', 'x' * 300])
        else: l = '  # ' + rng.choice(NAMES)
        if rng.random() < .25: l = rng.choice([' ', '\t', '  \t']) + l
        if rng.random() < .25: l += rng.choice([' ', '\t', '\r', '  '])
        L.append(l)
    if rng.random() < .05: L = ['# filler %d ' % k + 'y' * 70 for k in range(60)] + L
    s = '\n'.join(L) + ('\n' if L and rng.random() < .85 else '')
    return s

def listed(s, u):
    """-1 absent, 0 not listed, 1 listed, 2 all, None when both are listed"""
    if s is None: return -1
    n = [l.strip(' \t\r\n') for l in s.split('\n')]
    n = [x for x in n if x and not x.startswith('#')]
    a, b = u in n, 'all' in n
    return None if a and b else 1 if a else 2 if b else 0

def allowed(sc_allow, sc_deny, u):
    """True, False, or None where the documentation leaves it open"""
    a, d = listed(sc_allow, u), listed(sc_deny, u)
    if a is None or d is None: return None
    if a == -1: return d in (-1, 0)
    if d == 1: return False
    if a == 1: return True
    return a == 2 and d <= 0

def tab(rng, jid, u, by):
    """a table; by: the user who installs it"""
    return '&mail(no) * * * * * J%d\n' % jid

def gen(rng, i, tier):
    sc = new_sc(rng, 60, init=[], lists=[], secret='&mail(no) * * * * * J990\nSECRET=x\n')
    jid = 0
    for u in NAMES + ['systab']:
        if rng.random() < .6: jid += 1; sc['init'].append([u, jid])
    t = 15.; sc['lists'].append([t, gen_list(rng), gen_list(rng)]); n = rng.choice([2, 3, 4, 6, 8])
    for k in range(n):
        if rng.random() < .12: t += 4; sc['lists'].append([round(t, 3), gen_list(rng), gen_list(rng)]); t += 1
        t += rng.choice([3, 8, 8, 9, 70])
        r = rng.choice(NAMES); tgt = r if rng.random() < .5 else rng.choice(NAMES + ['systab'])
        a = rng.choice(['stdin', 'stdin', 'file', 'file', 'list', 'rm', 'edit', 're', 'nfile', 'sighup', 'dyn', 'dyn', 'secret', 'conf'])
        if a == 'secret' and r == 'root': tgt = 'root'
        jid += 1
        o = dict(t=round(t, 3), r=r, u=tgt, a=a, j=jid, form=rng.choice(['u', 'pos', 'upre']) if tgt != r or rng.random() < .2 else 'own')
        x = rng.random()
        o['tab'] = 'runas' if x < .15 else 'inline' if x < .2 else 'nice' if x < .27 else 'runasdef' if x < .32 else 'plain'
        if a == 'dyn': o['cmd'] = rng.choice(['ls', 'detail 1', 'ls_exeq', 'run 1', 'kill 15 1', 'renice 5 1', 'ls_lavgq', 'ls_serialq', 'runnow 2'])
        sc['ops'].append(o)
        while rng.random() < .3 and len(sc['faults']) < 3:
            s = rng.choice(['read', 'open', 'read', 'open', 'malloc', 'fstat', 'close', 'setuid', 'setgid', '*'])
            sc['faults'].append(['o%d*' % k, s, rng.choice([1, 1, 2, 3, 4, 5, 6, 8, rng.randint(1, 40)]), rng.choice([1, 1, 1, 2, 3, 50]), 'E', rng.choice([5, 24, 12, 13, 23, 2, 4] if s != 'read' else [5, 21, 4])] if rng.random() < .85 or s != 'read' else ['o%d*' % k, 'read', rng.randint(1, 6), 30, 'S', rng.choice([1, 2, 7])])
            if s in ('setuid', 'setgid'): sc['faults'][-1][5] = 11
            if s == 'open' and sc['faults'][-1][5] == 2: sc['faults'][-1][5] = 5
            if s == '*': sc['faults'][-1][5] = rng.choice([5, 12, 13, 23, 24])
    sc['noshrink'] = 0
    sc['end'] = int(t + 140)
    return sc

def optab(o):
    other = 'bob' if o['u'] != 'bob' else 'carol'; j = o['j']
    return {'plain': '&mail(no) * * * * * J%d\n' % j, 'runas': '&mail(no),runas(%s) * * * * * J%d\n' % (other, j), 'inline': '&mail(no) * * * * * %s J%d\n' % (other, j),
            'nice': '&mail(no),nice(-5) * * * * * J%d\n' % j, 'runasdef': '!runas(%s)\n&mail(no) * * * * * J%d\n' % (other, j)}[o['tab']]

def build(sc):
    p = base(sc); p.daemon(0.5, ['-l', '5'])
    for k, (u, j) in enumerate(sc['init']): p.fcrontab(1 + k * .3, 'root', ['-', u] if k % 2 else ['-u', u, '-'], stdin='&mail(no) * * * * * J%d\n' % j)
    for t, a, d in sc['lists']:
        for f, s in (('allow', a), ('deny', d)):
            p.op(t, 'rm', '/etc/fcron.' + f)
            if s is not None: p.write(t + .01, '/etc/fcron.' + f, s, 0, 90, '640')
    p.file0('/root/secret', sc['secret'], 0, 0, '600')
    sc['_tags'] = tags = []
    for k, o in enumerate(sc['ops']):
        t, r, u, a = o['t'], o['r'], o['u'], o['a']; body = optab(o); p.file0('/home/f%d' % k, body, UID[r], GID[r], '644'); p.file0('/plan/edit%d' % k, body, 0, 0, '644')
        home = {'root': '/root'}.get(r, '/home/' + r)
        env = ['PATH=/usr/bin:/bin', 'HOME=' + home, 'EDITOR=/usr/bin/ed', 'EDN=%d' % k, 'EDS=1200']
        pre = ['-u', u] if o['form'] in ('u', 'upre') and o['form'] != 'own' else []; pos = [u] if o['form'] == 'pos' else []
        K = dict(name='o%d' % k, env=env)
        if a == 'stdin': g = p.fcrontab(t, r, (['-'] + pre if o['form'] == 'u' else pre + ['-']) + pos, stdin=body, **K)
        elif a == 'file': g = p.fcrontab(t, r, pre + ['/home/f%d' % k] + pos, **K)
        elif a == 'nfile': g = p.fcrontab(t, r, pre + ['-n', '/home/f%d' % k] + pos, **K)
        elif a == 'secret': g = p.fcrontab(t, r, pre + ['/root/secret'] + pos, **K)
        elif a == 'conf':
            p.file0('/home/c%d' % k, CONF.replace('/etc/fcron.', '/home/none.'), UID[r], GID[r], '644')
            g = p.fcrontab(t, r, ['-c', '/home/c%d' % k] + pre + ['/home/f%d' % k] + pos, **K)
        elif a == 'list': g = p.fcrontab(t, r, ['-l'] + pre + pos if o['form'] != 'upre' else pre + ['-l'], **K)
        elif a == 'rm': g = p.fcrontab(t, r, ['-r'] + pre + pos, **K)
        elif a == 'edit': g = p.fcrontab(t, r, ['-e'] + pre + pos, stdin='i\ni\ni\n', **K)
        elif a == 're': g = p.fcrontab(t, r, ['-z'] + pre + pos, **K)
        elif a == 'sighup': g = p.run(t, ['/usr/bin/fcronsighup'], r, **K)
        elif a == 'dyn': g = p.fcrondyn(t, r, o['cmd'], **K)
        o['tag'] = g
        if k + 1 == len(sc['ops']) or sc['ops'][k + 1]['t'] - t > 4:
            for q in NAMES + ['systab', 'alicex']: p.op(t + 2.5 + .01, 'cat', '/var/spool/fcron/%s.orig' % q)
    for w, s, f, n, kd, arg in sc['faults']: p.fault(w, s, f, n, kd, arg)
    return p

def check(sc, tr, R):
    cur = {}; inforce = {}                                     # source; job ids that may run, by owner
    sure = {}                                                  # users whose state the model knows
    owner = {}                                                 # job -> the user it may run as
    for u, j in sc['init']: cur[u] = '&mail(no) * * * * * J%d\n' % j; owner[j] = {'root' if u == 'systab' else u}
    faulty = {f[0].rstrip('*') for f in sc['faults']}
    def lists(t):
        r = [x for x in sc['lists'] if x[0] + .005 <= t]; return r[-1] if r else None
    events = sorted([(o['t'] * U, 0, k, o) for k, o in enumerate(sc['ops'])] + [(f['t'], 1, 0, f) for f in tr.files if f['path'].startswith('/var/spool/fcron/')], key=lambda x: x[:3])
    unknown = set(); denied_jobs = {}; maybe = {}
    kills = {}
    for e in tr.kills: kills.setdefault(e['p'].split('.')[0], []).append(e)
    for t, c, k, o in events:
        if c == 1:
            u = o['path'].split('/')[-1][:-5]; got = o.get('data')
            if u in maybe: 
                if got not in maybe[u]: return R.fail('changed', 'the source of the table of %s is %r' % (u, got), o['t'])
                if u not in unknown: cur[u] = got; del maybe[u]
                continue
            if got != cur.get(u): return R.fail('changed', 'the source of the table of %s is %r rather than %r' % (u, got, cur.get(u)), o['t'])
            R.ok(1, 'sources compared'); continue
        r, u, a = o['r'], o['u'], o['a']; run = tr.runs.get(o['tag'])
        if run is None: continue
        l = lists(o['t']); own = o['form'] == 'own'; body = optab(o); bad = 'o%d' % k in faulty
        tgt = u
        if a in ('dyn', 'sighup'): tgt = r
        al = True if tgt == 'systab' else allowed(l[1], l[2], tgt)
        priv = r == 'root' or a in ('dyn', 'sighup')
        if own: u = tgt = r
        may = al and (priv or own)
        if al is None: may = None if (priv or own) else False
        what = '%s by %s for %s (allow %r, deny %r)' % (' '.join(run.argv), r, tgt, l[1], l[2])
        if a == 'sighup' and r != 'root': may = False             # the program is not executable by them
        secret = 'SECRET' in run.out or 'SECRET' in run.err
        if r != 'root' and secret: return R.fail('leak', '%s: shows the content of a file only root may read: %r' % (what, (run.out + run.err)[:200]), o['t'])
        for e in tr.ev:
            if e['e'] == 'editor' and e.get('p', '').split('.')[0] == 'o%d' % k:
                R.ok(1, 'rights of editors')
                if e['ids'] != ' '.join([str(UID[r])] * 3 + [str(GID[r])] * 3): return R.fail('editor', '%s: the editor runs with the user and group numbers %s' % (what, e['ids']), o['t'])
        if may is False:
            R.ok(1, 'refusals'); R.cover('refused ' + a)
            if bad: R.cover('refused with fault')
            if run.st == 0: return R.fail('not-refused', '%s: exits with success' % what, o['t'])
            if re.search(r'J\d', run.out): return R.fail('leak', '%s: not allowed, but prints %r' % (what, run.out[:200]), o['t'])
            if any(e.get('p', '').split('.')[0] == 'o%d' % k for e in [z for z in tr.ev if z['e'] == 'editor']): return R.fail('editor', '%s: not allowed, but an editor is started' % what, o['t'])
            if kills.get('o%d' % k): return R.fail('signalled', '%s: not allowed, but signals a process' % what, o['t'])
            denied_jobs[o['j']] = what
            continue
        if a in ('stdin', 'file', 'nfile', 'conf', 'edit', 're', 'rm', 'secret'):
            if a == 'secret': 
                new = sc['secret'] if r == 'root' else cur.get(tgt); body = new
                if r != 'root' and run.st == 0: return R.fail('secret', '%s: succeeds' % what, o['t'])
                owner.setdefault(990, set()).add('root' if tgt == 'systab' else tgt) if r == 'root' else None
            elif a == 'rm': new = None
            elif a == 're': new = cur.get(tgt)
            else:
                new = body; other = 'bob' if o['u'] != 'bob' else 'carol'
                runas = r == 'root' and o['tab'] in ('runas', 'inline', 'runasdef')
                # a table of root or of the system may choose its user; that of another user never does
                owner[o['j']] = {other} if runas and tgt in ('root', 'systab') else {'root' if tgt == 'systab' else tgt}
                if o['tab'] == 'nice' and r != 'root': owner[o['j']] = owner[o['j']]
            near = [x for x in sc['ops'] if x is not o and abs(x['t'] - o['t']) < 4]
            if may is None or bad or near or tgt in unknown or tgt in maybe:
                maybe.setdefault(tgt, set()).update({cur.get(tgt), new}); 
            else:
                if a != 'secret' and run.st != 0 and not (a == 're' and new is None): return R.fail('refused', '%s: is refused: status %s %r' % (what, run.st, run.err[:300]), o['t'])
                cur[tgt] = new
        elif may and not bad and a == 'list' and not any(abs(x['t'] - o['t']) < 4 and x is not o for x in sc['ops']) and tgt not in maybe:
            if run.out != (cur.get(tgt) or ''): return R.fail('list', '%s: prints %r, the table is %r' % (what, run.out, cur.get(tgt)), o['t'])
            R.ok(1, 'listings')
        elif may and not bad and a == 'dyn':
            if run.st != 0 and 'not allowed' in run.err: return R.fail('refused', '%s: is refused: %r' % (what, run.err[:300]), o['t'])
    for e in tr.jobs:
        if e.id in denied_jobs: return R.fail('denied-job', 'J%d runs although its table was refused: %s' % (e.id, denied_jobs[e.id]), e.t)
        ow = owner.get(e.id)
        if ow and e.uid not in {UID[x] for x in ow}: return R.fail('identity', 'J%d runs as %s rather than %s' % (e.id, e.uid, ow), e.t)
        if e.e.get('nice', 0) < 0 and not ({'root'} & (ow or {'root'})):
            o = [x for x in sc['ops'] if x['j'] == e.id]
            if o and o[0]['r'] != 'root': return R.fail('nice', 'J%d, installed by %s, runs with a nice value of %d' % (e.id, o[0]['r'], e.e['nice']), e.t)
        R.ok(1, 'jobs')
