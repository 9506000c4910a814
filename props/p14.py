"""P14: a job runs exactly its command, in the environment its table describes."""
from common import *
QUICK = 2500
U = 1000000
MIN = ['faults', 'ops', 'tables']
HOMES = {u[0]: u[3] for u in USERS}; SH = {u[0]: u[4] for u in USERS}
SAFE = ''.join(chr(c) for c in range(33, 127)) + '\xe9\xff\x80'
DIRS = {'/home/alice': 1, '/home/bob': 1, '/root': 1, '/tmp': 1, '/var/spool/fcron': 0, '/nowhere': 0, '/': 1, '/etc/fcron.conf': 0, '/plan/dx': 1, '/plan/closed': 0}
SHELLS = ['/bin/sh', '/bin/bash', '/bin/zsh', '/nowhere/sh', '/etc/fcron.allow', '', '/usr/bin/sh']
OKSH = ['/bin/sh', '/bin/bash', '/bin/zsh', '/usr/bin/sh']
NAMES = ['A', 'FOO', 'foo', 'FOO_BAR', 'X1', '_U', 'PATH', 'LANG', 'FO', 'FOOO', 'HOMEX', 'SHEL', 'LC_ALL', 'CONTENT_TYPE', 'PATHS', 'IFS', 'LD_PRELOAD']

def word(rng, lo=1, hi=12, sp=False): return ''.join(rng.choice(SAFE + (' \t ' if sp else '')) for _ in range(rng.randint(lo, hi)))
def value(rng):
    """(text in the table, value)"""
    k = rng.random()
    if k < .1: return rng.choice([('', ''), ('""', ''), ("''", '')])
    n = rng.choice([8, 8, 30, 100, 400, 980])
    if k < .4:
        q = rng.choice('"\''); v = word(rng, 1, n, True); v = v.replace('\\', '/'); return q + v + q, v
    v = word(rng, 1, n, True).strip(' \t')
    v = v.rstrip('\\') or 'v'
    if v[0] in '"\'': v = '=' + v
    v = v.strip(' \t') or 'v'
    return v, v
def command(rng, jid, room):
    c = 'J%d%s' % (jid, rng.choice(['', ' d2', ' o10', ' x1'])); k = rng.random()
    if k < .7:
        n = rng.choice([5, 20, 60, 200, 500, 900, 1100]); t = ' # ' + word(rng, 1, n, True)
        t = re.sub(r' J\d', ' j9', t.rstrip(' \t\\') or ' #'); c += t
    c = c[:room].rstrip(' \t\\')
    return c

def gen_table(rng, u, ids):
    """lines of a table and what they mean"""
    lines = []; env = {}; jobs = []; dflt = {'nice': 0, 'tz': None, 'runas': None}; 
    def opts():
        o = []; d = {}
        if rng.random() < .4:
            d['nice'] = rng.choice([1, 5, 19, 20, 0, 10] + ([-5, -20, -1] if u == 'root' else [])); o.append('%s(%d)' % (rng.choice(['nice', 'n']), d['nice']))
        if rng.random() < .25: d['tz'] = rng.choice(['Asia/Tokyo', 'Europe/Paris', 'UTC', 'America/St_Johns']); o.append('timezone(%s)' % d['tz'])
        if u == 'root' and rng.random() < .3: d['runas'] = rng.choice(['alice', 'bob', 'carol']); o.append('runas(%s)' % d['runas'])
        if rng.random() < .25: o.append(rng.choice(['mail(no)', 'nolog', 'mailto(bob)', 'forcemail', 'serial', 'lavg(9,9,9)', 'exesev', 'volatile', 'jitter(2)', 'runatreboot', 'bootrun']))
        rng.shuffle(o); return o, d
    for _ in range(rng.choice([2, 4, 6, 9])):
        k = rng.random()
        if k < .45:
            nm = rng.choice(NAMES) if rng.random() < .8 else ''.join(rng.choice('abcXYZ_09') for _ in range(rng.choice([3, 20, 200])))
            t, v = value(rng)
            if rng.random() < .25:
                nm = rng.choice(['HOME', 'SHELL', 'USER', 'LOGNAME', 'TZ', 'SHELL', 'HOME', 'MAILTO', 'MAILFROM'])
                v = t = {'HOME': rng.choice(list(DIRS)), 'SHELL': rng.choice(SHELLS), 'TZ': 'Asia/Kolkata'}.get(nm, rng.choice(['alice', 'bob', 'root']))
            if nm[0].isdigit(): nm = 'V' + nm
            l = rng.choice(['', ' ']) + nm + rng.choice(['=', ' = ', '\t=', '= ']) + t + rng.choice(['', '', ' ', '\t'])
            if len(l) > 1022: l = nm + '=' + t
            if rng.random() < .06: nm = 'LONG%d' % rng.randint(0, 9); v = t = 'v' * (rng.choice([1022, 1021, 1020, 1019, 1010]) - len(nm) - 1); l = nm + '=' + t
            if len(l) > 1022: continue
            lines.append(l)
            if nm not in ('USER', 'LOGNAME', 'MAILTO', 'MAILFROM'): env[nm] = v
        elif k < .58:
            o, d = opts()
            if rng.random() < .4: o = ['reset'] + o; dflt = {'nice': 0, 'tz': None, 'runas': None}
            if o:
                dflt = dict(dflt, **d); lines.append('!' + ','.join(o))
        else:
            jid = ids[0]; ids[0] += 1; o, d = opts(); sp = rng.choice(['* * * * *', '@ 1', '*/2 * * * *', '@ 2'])
            if sp[0] == '@': pre = '@' + ','.join(x for x in o) + ' ' + sp[2:]
            else:
                o = [x for x in o if x not in ('volatile',)]; pre = ('&' + ','.join(o) + ' ' + sp) if o or rng.random() < .3 else sp
                if pre.startswith('& ') is False and pre.startswith('&') and not o: pre = '& ' + sp
            pre += rng.choice([' ', '\t', '  ']); c = command(rng, jid, 1022 - len(pre)); l = pre + c
            if rng.random() < .2: l += rng.choice([' ', '\t ', '  ']); l = l if len(l) <= 1022 else pre + c
            if rng.random() < .15:
                q = rng.randint(len(pre), len(pre) + len(c))
                if l[q - 1] != '\\' and len(l) < 1015: l = l[:q] + '\\\n' + l[q:]
            lines.append(l); jobs.append(dict(id=jid, cmd=c, **dict(dflt, **d)))
    return dict(user=u, lines=lines, env=env, jobs=jobs)

def gen(rng, i, tier):
    end = rng.choice([260, 400, 700]); users = rng.sample(['alice', 'bob', 'carol', 'ali'], rng.choice([1, 2, 3])) + (['root'] if rng.random() < .7 else [])
    sc = new_sc(rng, end, users=users, umask=rng.choice(['022', '077', '000', '027', '002']), nice=rng.choice([0, 0, 3, -4]), shell=rng.choice(['/usr/bin/sh', '/usr/bin/sh', '/bin/bash', '']))
    sc['denv'] = rng.choice([['PATH=/usr/bin:/bin'], ['PATH=/d/bin', 'FOO=daemon', 'LANG=xx', 'SHELL=/bin/zsh', 'USER=daemon', 'HOME=/x', 'SECRET=1', 'TZ=UTC'], ['TZ=Asia/Tokyo']])
    ids = [1]; sc['tables'] = []; t = 1
    for u in users: t += .2; sc['tables'].append(dict(t=round(t, 2), **gen_table(rng, u, ids)))
    for _ in range(rng.choice([0, 1, 2])): sc['tables'].append(dict(t=round(rng.uniform(70, end - 130), 2), **gen_table(rng, rng.choice(users), ids)))
    if rng.random() < .3: sc['tables'].append(dict(t=round(rng.uniform(70, end - 130), 2), user=rng.choice(users), lines=None, env={}, jobs=[]))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])): sc['ops'].append(dict(t=round(rng.uniform(30, end - 20), 2), k=rng.choice(['restart', 'crash', 'usr1', 'hup', 'runall', 'susp'])))
    sc['ops'].sort(key=lambda o: o['t'])
    return sc

def build(sc):
    p = base(sc)
    p.file0('/etc/fcron.conf', CONF.replace('shell = /usr/bin/sh', 'shell = ' + sc['shell']), 0, 90, '640')
    p.b('mkdir', esc('/plan/dx'), '0', '0', '755'); p.b('mkdir', '/plan/closed', '0', '0', '700')
    def boot(t, name): 
        p.run(t, ['/usr/sbin/fcron', '-f', '-l', '5', '-s', '60'], 'root', name=name, cwd='/', env=sc['denv'], umask=sc['umask'], nice=sc['nice'])
    n = 0; boot(5, 'd0')
    for x in sc['tables']:
        if x['lines'] is None: p.fcrontab(x['t'], x['user'], ['-r'])
        else: p.install(x['t'], x['user'], ''.join(l + '\n' for l in x['lines']))
    last = -9
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if k in ('restart', 'crash') and t > last + 25:
            last = t; n += 1
            if k == 'restart': p.op(t, 'sig', 'd%d' % (n - 1), 15); boot(t + 10, 'd%d' % n)
            else: p.op(t, 'crash'); boot(t + 5, 'd%d' % n)
        elif k == 'usr1': p.op(t, 'sig', 'daemon', 10)
        elif k == 'hup': p.op(t, 'sig', 'daemon', 1)
        elif k == 'susp': p.op(t, 'suspend', 30 * U)
        elif k == 'runall':
            for q in range(0, 8): p.fcrondyn(t + q * .1, 'root', 'run %d' % q)
    return p

def check(sc, tr, R):
    inst = {}                                   # user -> list of (t, table) installed
    for r in tr.runs.values():
        if r.exe == '/usr/bin/fcrontab' and r.argv[-1] == '-':
            for x in sc['tables']:
                if x['lines'] is not None and abs(x['t'] * U - r.t) < 50000 and x['user'] in [u[0] for u in USERS if u[1] == r.ruid]: x['t0'] = r.t; x['t1'] = r.end
    owner = {j['id']: (x, j) for x in sc['tables'] for j in x['jobs']}
    shell = sc['shell']; seen = {}
    for jb in tr.jobs:
        e = jb.e
        if jb.id not in owner: return R.fail('unknown', 'a job J%d which no table holds: %r' % (jb.id, e['argv']), jb.t)
        x, j = owner[jb.id]; u = x['user']; who = j['runas'] or u
        what = 'J%d of %s (table installed at %.1f)' % (jb.id, u, x['t'])
        env = {'USER': who, 'LOGNAME': who, 'HOME': HOMES[who], 'PATH': '/usr/bin:/bin', 'SHELL': shell or SH[who]}
        if j['tz']: env['TZ'] = j['tz']
        env['SHELL'] = shell or SH[who]
        env.update(x['env'])
        s = env['SHELL']
        if s not in OKSH: s = shell if shell else None
        home = env['HOME']; fs = [y.split('=', 1) for y in e['env']]
        if any(len(y) < 2 for y in fs): return R.fail('env', '%s: malformed environment %r' % (what, e['env']), jb.t)
        got = dict(map(tuple, fs))
        if len(got) != len(fs): return R.fail('env', '%s: a variable is defined twice: %s' % (what, sorted(e['env'])), jb.t)
        if s is None: continue                  # no usable shell at all
        env['SHELL'] = s
        if j['tz'] and 'TZ' in x['env']: env.pop('TZ'); got.pop('TZ', None)
        env['PATH'] = x['env'].get('PATH') if 'PATH' in x['env'] else got.get('PATH')
        if 'PATH' not in x['env'] and got.get('PATH') not in (DEFPATH,): return R.fail('env', '%s: PATH is %r instead of the default %s' % (what, got.get('PATH'), DEFPATH), jb.t)
        if got != env:
            d = sorted(k for k in set(got) | set(env) if got.get(k) != env.get(k))
            return R.fail('env', '%s: variable %s is %r instead of %r' % (what, d[0], got.get(d[0]), env.get(d[0])), jb.t)
        if e['argv'] != [s, '-c', j['cmd']]: return R.fail('command', '%s: runs %r instead of %r' % (what, e['argv'], [s, '-c', j['cmd']]), jb.t)
        if e['exe'] != s: return R.fail('command', '%s: executes %s' % (what, e['exe']), jb.t)
        ok = DIRS.get(home, 1)
        if home == '/root' or home == '/plan/closed' or home == '/var/spool/fcron': ok = who == 'root'
        wd = home if ok and home else '/'
        if e['cwd'] != wd: return R.fail('cwd', '%s: runs in %s instead of %s' % (what, e['cwd'], wd), jb.t)
        if e['umask'] != int(sc['umask'], 8): return R.fail('umask', '%s: umask %o instead of %s' % (what, e['umask'], sc['umask']), jb.t)
        nv = max(-20, min(19, sc['nice'] + j['nice']))
        if j['nice'] < 0 and who != 'root': nv = None
        if nv is not None and e['nice'] != nv: return R.fail('nice', '%s: nice value %d instead of %d' % (what, e['nice'], nv), jb.t)
        R.ok(5, 'job'); seen[jb.id] = 1
        if x['env']: R.cover('job with variables of its table')
        if len(j['cmd']) > 800: R.cover('long command')
    # and the jobs do run: those whose table lasts at least 130 s of undisturbed time
    if sc['ops']: return
    for x in sc['tables']:
        if x['lines'] is None: continue
        nxt = min([y['t'] for y in sc['tables'] if y['user'] == x['user'] and y['t'] > x['t']] + [sc['end'] ])
        if nxt - x['t'] < 150: continue
        for j in x['jobs']:
            R.ok(1)
            if j['id'] not in seen and (shell or x['env'].get('SHELL', '/bin/sh') in OKSH): return R.fail('not-run', 'J%d of %s (table of %.1f) never runs' % (j['id'], x['user'], x['t']), tr.T)

DEFPATH = '/usr/bin:/bin'
