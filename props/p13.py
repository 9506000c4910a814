"""P13: jobs and mailers run with exactly the rights of their user and inherit nothing."""
from common import *
QUICK = 3000
U = 1000000
MIN = ['faults', 'ops', 'jobs', 'pam']
IDS = {u[0]: (u[1], u[2]) for u in USERS}
FSYS = ['setuid', 'setgid', 'setgroups', 'setuid', 'setgid', 'setgroups', 'pam', 'pam', 'dup2', 'pipe', 'fork', 'chdir', 'close', 'malloc', 'open', 'execve', 'misc', 'write', 'read', 'access']
KILLS = {'setuid', 'setgid', 'setgroups', 'pam'}

def gen(rng, i, tier):
    end = rng.choice([200, 330, 500]); users = rng.sample(['alice', 'bob', 'carol', 'ali'], rng.choice([1, 2, 3])) + (['root'] if rng.random() < .8 else []) + (['systab'] if rng.random() < .3 else [])
    sc = new_sc(rng, end, users=users, q=rng.choice([None, None, ['-p', '/var/log/fcron.log'], ['-y'], ['-b'], ['-b', '-p', '/var/log/fcron.log']]), pam=[], via={u: rng.random() < .4 for u in users}, daemon_may_die=True, job_faults=rng.random() < .5)
    sc['umask'] = rng.choice(['022', '077', '000', '027'])
    if rng.random() < .25: sc['pam'].append([rng.choice(users + ['*']), rng.choice([0, 1, 2, 3, 4, 4, 5, 6]), rng.choice([4, 7, 13])])
    k = 0; sc['head'] = {u: '' for u in users}
    for u in users:
        if rng.random() < .25: sc['head'][u] += rng.choice(['!runas(%s)\n' % rng.choice(['alice', 'root', 'bob']), '!mailto(root)\n', '!mail(no)\n', '!nice(4)\n', '61 * * * * J999\n', '!bogus\n'])
        for _ in range(rng.choice([1, 2, 3])):
            k += 1; o = []; run = None; inl = ''; c = rng.random()
            if c < .35: run = rng.choice(['alice', 'bob', 'root', 'carol', 'ali']); o.append('runas(%s)' % run)
            elif c < .5: inl = rng.choice(['alice', 'bob', 'root', 'daemon', 'ali']) + ' '; run = inl.strip()
            if rng.random() < .3: o.append(rng.choice(['mail(no)', 'mailto(root)', 'forcemail', 'stdout', 'nolog', 'noticenotrun', 'serial', 'lavg(5,5,5)', 'nice(5)', 'runatreboot', 'mailto(alice)', 'timezone(Asia/Tokyo)', 'volatile' , 'nice(-5)' if u in ('root', 'systab') else 'nice(1)']))
            rng.shuffle(o)
            sp = rng.choice(['& * * * * *', '@ 1', '& * * * * *', '@ 2'])
            sp = sp[0] + ','.join(x for x in o if not (x == 'runatreboot' and sp[0] == '@' and 0) and not (x == 'volatile' and sp[0] == '&')) + ' ' + sp[1:].strip()
            cmd = 'J%d%s' % (k, rng.choice(['', '', ' o30', ' d3 o5', ' x3', ' o5000 d1']))
            sc['jobs'].append(dict(id=k, user=u, run=run, line='%s %s%s' % (sp, inl, cmd)))
    if sc['job_faults']:
        for _ in range(rng.choice([1, 1, 2, 4])):
            s = rng.choice(FSYS); sc['faults'].append(dict(who=rng.choice(['d0.*', 'd0.[0-9]', 'd0.*.1', 'd0.[1-9]*']), sys=s, frm=rng.choice([1, 1, 1, 2, 3, rng.randint(1, 12)]), cnt=rng.choice([1, 1, 2, 5, 1000]), arg=rng.choice([1, 11, 12, 5, 4, 24]), t0=round(rng.uniform(20, end), 1), t1=end))
    sc['forge'] = []
    if rng.random() < .25:
        for q in range(rng.choice([1, 2])):
            o = rng.choice([u for u in ['alice', 'bob', 'ali', 'carol'] if u not in users] or ['ali'])
            sc['forge'].append(dict(kind=rng.choice(['new', 'new', 'plain']), owner=o, file=rng.choice([o, o, 'bob', 'alice']), name=rng.choice([o, 'root', 'systab', 'alice']), runas=rng.choice(['root', 'alice', 'bob', o]), at=rng.choice([0, 30]), id=900 + q, nl=rng.choice([1, 2])))
        sc['forge'] = [x for x in sc['forge'] if x['file'] not in users]
    for _ in range(rng.choice([0, 1, 2, 4])):
        t = rng.choice([rng.uniform(22, end), (int(rng.uniform(25, end)) // 60 * 60 + (-sc['rt']) % 60) + rng.choice([-.01, 0, .0005, .002, .005])]); t = max(22, t)
        sc['ops'].append(dict(t=round(t, 4), k=rng.choice(['hold', 'hold', 'runnow', 'run', 'hup', 'usr1', 'reinst', 'susp', 'dynls', 'chld']), u=rng.choice(users), a=rng.randint(0, k), w=rng.choice([1000, 30000, 100000])))
    return sc

def build(sc):
    p = base(sc)
    p.head += ['pam %s:%d:%d' % tuple(x) for x in sc['pam']]
    a = list(sc['q'] or []); bg = '-b' in a
    if bg: p.run(5, ['/usr/sbin/fcron', '-l', '5'] + a, 'root', name='d0', cwd='/', umask=sc['umask'])
    else: p.daemon(5, ['-l', '5'] + a, name='d0', umask=sc['umask'])
    for k, u in enumerate(sc['users']):
        t = sc['head'].get(u, '') + ''.join(j['line'] + '\n' for j in sc['jobs'] if j['user'] == u)
        if u == 'systab' or (sc['via'].get(u) and u != 'root'): p.install(1 + k * .1, 'root', t) and None
        if u == 'systab': p.ops.pop(); p.run(1 + k * .1, ['/usr/bin/fcrontab', '-u', 'systab', '-'], 'root', stdin=t)
        elif sc['via'].get(u) and u != 'root': p.ops.pop(); p.run(1 + k * .1, ['/usr/bin/fcrontab', '-u', u, '-'], 'root', stdin=t)
        else: p.install(1 + k * .1, u, t)
    for x in sc['forge']:
        d = compiled(x['name'], [dict(shell='J%d' % x['id'], runas=x['runas'])] * x['nl']); fn = '/var/spool/fcron/' + ('new.' if x['kind'] == 'new' else '') + x['file']
        if x['at']: p.write(x['at'], fn, d, UID[x['owner']], 90, '600'); p.op(x['at'] + .5, 'sig', 'daemon', 1)
        else: p.file0(fn, d, UID[x['owner']], 90, '600')
    for f in sc['faults']: p.fault(f['who'].replace('d0', 'd0.1') if bg else f['who'], f['sys'], f['frm'], f['cnt'], 'E', f['arg'], f['t0'], f['t1'])
    for o in sc['ops']:
        t, u = o['t'], o['u']; u = 'root' if u == 'systab' else u
        if o['k'] == 'hold': p.run(t, ['/usr/bin/dynraw', '/var/run/fcron.fifo', 'd%d' % o['w'], 'R100'], u)
        elif o['k'] in ('run', 'runnow'): p.fcrondyn(t, 'root', '%s %d' % (o['k'], o['a']))
        elif o['k'] == 'hup': p.op(t, 'sig', 'daemon', 1)
        elif o['k'] == 'usr1': p.op(t, 'sig', 'daemon', 10)
        elif o['k'] == 'susp': p.op(t, 'suspend', 50 * U)
        elif o['k'] == 'dynls': p.fcrondyn(t, u, 'ls')
        elif o['k'] == 'chld': p.op(t, 'sig', 'daemon', 17)
        elif o['k'] == 'reinst' and o['u'] != 'systab': p.install(t, u, sc['head'].get(o['u'], '') + ''.join(j['line'] + '\n' for j in sc['jobs'] if j['user'] == o['u']))
    return p

def who(sc, j):
    """the allowed identities of a job"""
    u = j['user']
    if u not in ('root', 'systab'): return {u}
    h = re.search(r'runas\((\w+)\)', sc['head'].get(u, '')); d = h.group(1) if h else 'root'
    return {j['run'] or d}

def check(sc, tr, R):
    dn = tr.daemons[0].name if tr.daemons else 'd0'
    J = {j['id']: j for j in sc['jobs']}; allids = {}
    for j in sc['jobs']: allids[j['id']] = who(sc, j)
    F = {x['id']: x for x in sc.get('forge', [])}
    for x in F.values(): allids[x['id']] = {x['owner']} if x['kind'] == 'new' else set()
    bad = {}                                    # process -> failed privilege call
    for e in tr.ev:
        if e['e'] == 'fault' and e.get('kind') == 'E' and e['sys'] in KILLS: bad.setdefault(e['p'], (e['sys'], e['n']))
    def ident(e, names, what):
        ok = False
        for n in names:
            uid, gid = IDS[n]; gs = set(int(x) for x in gids(n).split(','))
            if (e['ruid'], e['euid'], e['suid']) == (uid,) * 3 and (e['rgid'], e['egid'], e['sgid']) == (gid,) * 3 and set(e['groups']) == gs: ok = True
        if not ok: R.fail('identity', '%s runs with uids %d/%d/%d gids %d/%d/%d groups %s instead of those of %s' % (what, e['ruid'], e['euid'], e['suid'], e['rgid'], e['egid'], e['sgid'], e['groups'], '/'.join(sorted(names))), e['t']); return False
        return True
    njobs = {}
    for e in tr.ev:
        if e['e'] != 'exec' or not e['p'].startswith(('d0.', 'd0.1.')): continue
        if e['exe'] in ('/usr/sbin/fcron', '/usr/bin/fcronsighup'): continue
        mail = e['exe'] == '/usr/sbin/sendmail'
        if mail:
            # the user of a mail: that of its job (from the process tree)
            what = 'the mailer %s' % e['p']
            names = set().union(*allids.values()) if allids else {'root'}
            q = e['p']; js = [x.id for x in tr.jobs if x.e['p'].rsplit('.', 1)[0] == q]
            if not js: js = [int(y) for m in tr.mails if m['p'] == q for y in re.findall(r'^Subject: .*?\bJ(\d+)', m['data'], re.M)]
            if js: names = allids.get(js[0], names)
        else:
            j = J.get(e.get('job'))
            if j is None and e.get('job') in F:
                x = F[e['job']]; j = dict(id=x['id'], line='* * * * * J%d' % x['id'], user=x['owner'], run=None)
                if x['kind'] != 'new': return R.fail('forged', 'a job of the table %s runs although the file is owned by %s' % (x['file'], x['owner']), e['t'])
                R.cover('table owned by a user asking for runas')
            if j is None:
                if e.get('job') != 999: R.fail('unknown', 'process %s (%s) executes %s' % (e['p'], e['argv'], e['exe']), e['t'])
                continue
            what = 'job J%d (%s) of %s' % (j['id'], j['line'], j['user']); names = allids[j['id']]
            njobs[j['id']] = njobs.get(j['id'], 0) + 1
        if not ident(e, names, what): return
        fds = [x for x in e['fds'] if x[0] > 2]
        if fds: return R.fail('descriptor', '%s inherits descriptor %d (%s)' % (what, fds[0][0], fds[0][1]), e['t'])
        for n, d in [(x[0], x[1]) for x in e['fds']]:
            typ, path = d.split(':')[0], d.split(':')[1]
            if mail and (n == 0 or 'fcr-' in path): continue
            if typ in ('sock', 'tfd', 'dir') or (typ == 'reg' and ('spool' in path or 'log' in path or 'pid' in path)): return R.fail('descriptor', '%s inherits descriptor %d (%s)' % (what, n, d), e['t'])
        if e['ign']: return R.fail('signals', '%s starts with signals %s ignored' % (what, e['ign']), e['t'])
        if e['blk']: return R.fail('signals', '%s starts with blocked signals %x' % (what, e['blk']), e['t'])
        R.ok(1, 'mailer' if mail else 'job')
        if not mail:
            q = e['p'].rsplit('.', 1)[0]
            for b in (q, e['p']):
                if b in bad and bad[b][1] < e['n']: return R.fail('run-anyway', '%s runs although %s failed in %s' % (what, bad[b][0], b), e['t'])
            for u, w, c in sc['pam']:
                if w in (0, 1, 2, 3, 4) and (u == '*' or u in names): return R.fail('run-anyway', '%s runs although PAM refuses %s' % (what, u), e['t'])
            if len(names) == 1 and j['run'] and j['user'] in ('root', 'systab'): R.cover('runas')
    # and without faults each job does run
    if not sc['faults'] and not sc['pam']:
        for j in sc['jobs']:
            if 'volatile' in j['line'] and sc['ops']: continue
            R.ok(1)
            if not njobs.get(j['id']): return R.fail('not-run', 'job J%d (%s) of %s never runs' % (j['id'], j['line'], j['user']), tr.T)
