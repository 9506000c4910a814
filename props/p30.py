"""P30: no input makes a program of fcron crash, hang or corrupt memory; the other users' jobs go on, and a refused table leaves the installed one in force."""
from common import *
QUICK = 9000
THOROUGH = 150000
U = 1000000
MIN = ['acts', 'env']
PER = 150
OPTS = 'tzdiff timezone s serial serialonce lavgonce exesev b bootrun rebootreset runatreboot runatresume runonce reset f first r runfreq strict noticenotrun lavg lavg1 lavg5 lavg15 lavgand lavgor u until m mail forcemail mailfrom mailto erroronlymail dayand dayor nolog volatile stdout n nice runas random jitter mins hours days mons dow hourly daily monthly weekly midhourly middaily nightly midmonthly midweekly'.split()
NAMES = 'jan feb mar dec sun mon sat tuesday january decembre x'.split()
NUMS = ['0', '1', '2', '5', '7', '12', '23', '24', '31', '32', '59', '60', '61', '99', '255', '256', '1024', '32767', '65536', '2147483647', '2147483648', '99999999999', '9223372036854775807', '9223372036854775808', '99999999999999999999999', '-1', '-0', '+3', '00', '007', '1.', '1.5', '.5', '.', '', '0x10', '1e3', ' 1', '1 ']
JUNK = ['"', "'", '\\', '(', ')', ',', '~', '-', '/', '*', '&', '%', '@', '!', '#', '=', ' ', '\t', '\0', '\x80', '\xff', '\r', '\x0b', '\x1b', '|', ':', '%s', '%n', '%d%d%d', '\\\n', '$', '{', '}', '<', '>']

def junk(rng, n=8): return ''.join(rng.choice(JUNK + NUMS + NAMES) for _ in range(rng.randint(0, n)))
def long(rng): return rng.choice('aA19,*-(~ ') * rng.choice([60, 127, 128, 129, 200, 255, 256, 257, 511, 512, 900, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 5000, 70000])

def num(rng): return rng.choice(NUMS) if rng.random() < .4 else str(rng.randint(0, 60))
def elem(rng):
    k = rng.random()
    if k < .2: return '*'
    if k < .4: return num(rng)
    if k < .6: return '%s-%s' % (num(rng), num(rng))
    if k < .75: return '%s-%s/%s' % (num(rng), num(rng), num(rng))
    if k < .8: return '*/%s' % num(rng)
    if k < .9: return '%s-%s/%s' % (num(rng), num(rng), num(rng)) + ''.join('~' + num(rng) for _ in range(rng.randint(1, 4)))
    if k < .95: return rng.choice(NAMES) + rng.choice(['', '-' + rng.choice(NAMES), '/2'])
    return junk(rng, 4)
def field(rng): return ','.join(elem(rng) for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 70])))
def tval(rng): return ''.join(num(rng) + rng.choice(['', 'm', 'w', 'd', 'h', 's', 'x', 'mm', '.', ',']) for _ in range(rng.choice([1, 1, 2, 3, 30])))
def args(rng):
    k = rng.random()
    if k < .25: return ''
    if k < .55: return '(%s)' % num(rng)
    if k < .65: return '(%s)' % rng.choice(['true', 'yes', 'no', 'false', 'y', 'n', 'tru', 'YES'])
    if k < .72: return '(%s)' % tval(rng)
    if k < .78: return '(%s)' % ','.join(num(rng) for _ in range(rng.randint(1, 6)))
    if k < .85: return '(%s)' % rng.choice(['alice', 'bob', 'root', 'nobodyatall', 'me@x', 'Europe/Paris', 'Not/AZone', '', '" "', 'a b', 'systab'])
    if k < .9: return '(%s' % junk(rng)
    if k < .95: return '(%s)' % long(rng)
    return junk(rng, 3)
def opts(rng):
    o = ''.join((',' if q else '') + rng.choice(['', '', '', ' ', 'un', 'no']) * (rng.random() < .2) + rng.choice(OPTS) + args(rng) for q in range(rng.choice([1, 1, 1, 2, 3, 5, 40])))
    if rng.random() < .1: o = rng.choice([long(rng), junk(rng), o + ',', ',' + o, o.swapcase() if o.isascii() else o])
    return o
def cmd(rng): return rng.choice(['J8', 'J8 d1', 'echo hello', 'J8 ' + junk(rng), long(rng), '', '   ', '"', 'bob J8', '- J8', junk(rng)])
def line(rng):
    k = rng.random(); sp = rng.choice([' ', ' ', ' ', '\t', '  ', ''])
    if k < .25:
        n = rng.choice([5, 5, 5, 5, 5, 4, 3, 1, 0, 6])
        s = rng.choice(['', '', '&', '&' + num(rng), '&' + opts(rng), '&' + opts(rng)]) + ' ' * (rng.random() < .9) + sp.join(field(rng) for _ in range(n)) + sp + cmd(rng)
    elif k < .42: s = '@' + rng.choice(['', opts(rng), num(rng)]) + sp + tval(rng) + sp + cmd(rng)
    elif k < .5: s = '@' + rng.choice(['hourly', 'reboot', 'resume', 'daily', 'yearly', 'annually', 'midnight', 'weekly', 'monthly', 'x', 'hourlyx', 'rebootJ']) + sp + rng.choice(['', field(rng) + sp]) + cmd(rng)
    elif k < .65: s = '%' + rng.choice(['hourly', 'daily', 'monthly', 'weekly', 'midhourly', 'middaily', 'nightly', 'midmonthly', 'midweekly', 'mins', 'hours', 'days', 'mons', 'dow', 'x', '']) + rng.choice(['', ',' + opts(rng), '(' + num(rng) + ')', args(rng)]) + sp + sp.join(field(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 5, 6]))) + sp + cmd(rng)
    elif k < .82: s = '!' + rng.choice(['', ' ']) + opts(rng) + rng.choice(['', ' ', junk(rng, 3)])
    elif k < .95:
        q = rng.choice(['', '"', "'", '`'])
        s = rng.choice(['A', 'MAILTO', 'SHELL', 'TZ', 'FCRON', 'PATH', 'HOME', 'USER', '', ' ', '"A"', 'a b', '1', long(rng), junk(rng)]) + rng.choice(['=', ' = ', '= ', ' =', '', '==']) + q + rng.choice(['', 'b', 'x y', '/bin/sh', '/nonexistent', 'me', long(rng), junk(rng), '"', ' ']) + rng.choice([q, q, '', q + 'x'])
    else: s = rng.choice([junk(rng, 30), long(rng), '# ' + long(rng), '\\', '#', '\\\n' * rng.choice([1, 3, 600, 1200]), '&', '@', '%', '!', '*', '0'])
    if rng.random() < .12:
        a = list(s)
        for _ in range(rng.choice([1, 1, 3])):
            p = rng.randint(0, len(a)); m = rng.random()
            if m < .4: a[p:p] = rng.choice(JUNK + NUMS)
            elif m < .7: del a[p:p + rng.choice([1, 1, 2, 5])]
            else: a[p:p] = a[max(0, p - rng.choice([1, 3, 10])):p]
        s = ''.join(a)
    return s
def fuzz_table(rng):
    k = rng.random()
    if k < .04: return ''.join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 10, 200, 3000])))
    if k < .06: return rng.choice(['&nolog 0 0 30 2 * J8\n', '@volatile 900w J8\n', '@ 1x J8\n', '%monthly,nolog 59 23 31 J8\n']) * rng.choice([200, 1023, 1024, 1025, 1100])
    if k < .07: return rng.choice(['\n', '#\n', 'A=b\n', 'A=\n']) * rng.choice([10249, 10250, 10251, 11000])
    if k < .085:        # nothing of a comment is ever read, whatever the shorter line after it holds
        l = rng.choice(['*/1.', '*/1.', '0-59/1.', '0-59,1.', '1.', '*', '* *', '* 1.', '*,', '@ 1.', '@ 1', '@1', '&*/1.', '&', '&lavg(1.', '&r(1', '&mail(no),b', '@f(1),', '%hourly,b', '%hourly 1.', '%daily 1. 1.', '@reboot', '@hourly', '!r(1.', '!mailto(', 'A=', 'A="', 'A'])
        return ('#' + 'x' * 20)[:len(l) + rng.choice([1, 1, 1, 0, 2])] + rng.choice(['', '', '', ')', ',']) + rng.choice([' * * * * J77', ' * * * * * J77', ' * * * J77', ' J77', 's J77', ' 20s J77']) + '\n' + l + rng.choice(['\n', '', '\n\n'])
    if k < .10: return rng.choice(['', '\n', '\n\n', '\0', '\\', ' ', '\r\n', '#'])
    s = ''.join(line(rng) + rng.choice(['\n'] * 9 + ['\r\n', '\n\n', '', ' \\\n']) for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 10, 40])))
    if rng.random() < .1: s = s.rstrip('\n')
    return s

def fuzz_conf(rng):
    if rng.random() < .12: return CONF + 'maildisplayname = ' + rng.choice(['a', 'a', 'a', 'b c']) * rng.randint(970, 1003) + rng.choice(['', '"', '""', '(', 'a"']) + rng.choice(['\n', ''])
    if rng.random() < .12: return CONF + rng.choice(['=', ' =', '= ', '"', '""', '-', '= = ', ',']) + rng.choice(['/nonexistent', 'x', '', '/tmp']) + '\n'
    L = CONF.splitlines()
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.choice(['mut', 'drop', 'add', 'add', 'name', 'cut'])
        i = rng.randrange(len(L)) if L else 0
        nm = rng.choice(['fcrontabs', 'pidfile', 'fifofile', 'fcronallow', 'fcrondeny', 'shell', 'sendmail', 'editor', 'suspendfile', 'maildisplayname', 'maildisplayname', 'maildisplayname', 'x', '', 'f', '=', 'pid'])
        vals = ['', '/var/run/x', '/', 'relative', long(rng), '"quoted"', '"', '\\', 'a"b\\c' * rng.choice([1, 3, 60, 200]), 'plain name', 'n(a)me', '(' * rng.choice([1, 100, 300]), '\xe9\xe8 x' * rng.choice([1, 100]), junk(rng), '%s%n']
        if k == 'add': L.insert(i, nm + rng.choice([' = ', '=', ' ', '', '==']) + rng.choice(vals))
        elif not L: continue
        elif k == 'drop': del L[i]
        elif k == 'mut': a = L[i]; p = rng.randint(0, len(a)); L[i] = a[:p] + rng.choice(JUNK) + a[p + rng.choice([0, 1, 3]):]
        elif k == 'name': L[i] = nm + ' = ' + rng.choice(vals)
        elif k == 'cut': L[i] = L[i][:rng.randint(0, len(L[i]))]
    s = '\n'.join(L) + rng.choice(['\n', '\n', '', '\n\0x\n', '\n ' + long(rng)])
    return s
def fuzz_list(rng): return ''.join(rng.choice(['alice', 'bob', 'all', 'root', '', ' ', 'alice ', '#x', long(rng), junk(rng), '\0', 'ali', ' alice', 'all ']) + rng.choice(['\n'] * 6 + ['', '\r\n', '\0', ' ']) for _ in range(rng.choice([0, 1, 2, 5, 40])))
def fuzz_env(rng):
    E = []
    for n in rng.sample(['TZ', 'VISUAL', 'EDITOR', 'HOME', 'USER', 'LOGNAME', 'SHELL', 'PATH', 'TMPDIR', 'MAILTO', 'FOO', '', 'CONTENT_TYPE', 'CONTENT_TRANSFER_ENCODING', 'MAILFROM', 'SUSPEND_DURATION'], rng.randint(0, 5)):
        E.append(n + rng.choice(['=', '=', '=', '']) + rng.choice(['', 'x', '/usr/bin/ed', ':x', 'UTC', '/etc/passwd', '/', '..', '%n%s', long(rng), junk(rng).replace('\0', '')]))
    return E
def clean(s): return s.replace('\0', '')
def dyncmd(rng):
    k = rng.random(); c = rng.choice('ls ls_lavgq ls_serialq ls_exeq detail runnow run kill renice quit help q h l lq sq xq d n r k e x reboot 1 ? show'.split())
    if k < .6: return clean(c + rng.choice([' ', '  ', '\t', ',', '']) + ' '.join(rng.choice([num(rng), 'alice', 'bob', 'root', 'all', 'term', 'TERM', 'hup', 'kill', '15', long(rng), junk(rng, 2), '-20', '19', 'systab', 'nobodyatall']) for _ in range(rng.choice([0, 1, 1, 2, 3, 12]))))
    return clean(rng.choice([junk(rng, 20), long(rng) , c.upper(), ' ' + c, c[:1], '', ' ', '\n']))
def protocol(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 19, 20, 21, 40]); v = [rng.choice([0, -1, -2, -100, 1, 2, 3, 9, 15, 20, 101, 102, 103, 104, 105, 301, 302, 401, 402, 400, 100, 1 << 31, 1 << 62, -(1 << 63), 1000, 1001]) for _ in range(n)]
    b = struct.pack('<%dq' % n, *v)
    if rng.random() < .3: b = b[:rng.randint(0, len(b))] + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 100, 175, 3000])))
    if rng.random() < .25: b = rng.choice([b'alice\0pw-alice\0', b'root\0', b'x' * 500, b'\0' * 30, b'alice' + b'\0' * rng.choice([1, 150, 200]), b'bob\0' + b'p' * 200]) + b
    return b.hex()
def fargs(rng, o, extra):
    A = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        k = rng.random()
        if k < .6: A.append('-' + rng.choice(o)); 
        else: A.append(rng.choice(['-', '--', '', '-' + ''.join(rng.sample(o, min(3, len(o)))), '-?', '--help', clean(long(rng)), clean(junk(rng)), clean(num(rng)), '/', '..', '/home/alice/t', 'alice', 'root', '/nonexistent'] + extra))
        if k < .35: A.append(rng.choice([clean(num(rng)), clean(long(rng)), '', 'alice', 'bob', 'root', 'systab', 'nobodyatall', '/etc/fcron.conf', '/nonexistent', 'relative', clean(junk(rng)), '/'] + extra))
    return A

def gen(rng, i, tier):
    sc = new_sc(rng, 0, pm=0, daemon_may_die=False)
    if rng.random() < .7: sc['params'] = {}
    sc['acts'] = []; sc['env'] = fuzz_env(rng) if rng.random() < .2 else []
    sc['dargs'] = rng.choice([[], [], ['-d'], ['-m', '8']])
    n = rng.choice([1, 1, 2, 3])
    for k in range(n):
        a = rng.choice(['table'] * 9 + ['conf', 'list', 'args', 'args', 'env', 'dyn', 'dyni', 'raw', 'raw'])
        x = dict(a=a)
        if a == 'table':
            x.update(text=fuzz_table(rng), how=rng.choice(['-', '-', '-', 'file', 'file', 'e', 'e']), who=rng.choice(['alice', 'alice', 'alice', 'root', 'rootu', 'systab']), d=rng.random() < .1, opt=rng.choice([[], [], [], ['-n'], ['-d']]))
            x['stdin'] = rng.choice(['', 'i\n', 'i\n', 'c\n', 'c\nc\ni\n', 'x\n\n\ni\n', clean(junk(rng)), 'i', 'y' * 3000 + '\ni\n'])
            x['z'] = rng.random() < .15
        elif a == 'conf': x.update(text=fuzz_conf(rng), stop=rng.random() < .5, stay=rng.random() < .5)
        elif a == 'list': x.update(text=fuzz_list(rng), f=rng.choice(['allow', 'deny']))
        elif a == 'args': x.update(prog=rng.choice(['fcron', 'fcron', 'fcrontab', 'fcrontab', 'fcrondyn']), who=rng.choice(['root', 'alice']))
        elif a == 'env': x.update(prog=rng.choice(['fcrontab', 'fcrondyn']), env=fuzz_env(rng), who=rng.choice(['root', 'alice']))
        elif a == 'dyn': x.update(c=[dyncmd(rng) for _ in range(rng.choice([1, 3, 6]))], who=rng.choice(['root', 'alice', 'carol']))
        elif a == 'dyni': x.update(c=[dyncmd(rng).replace('\n', '') for _ in range(rng.choice([1, 4, 12]))], nl=rng.random() < .8, who=rng.choice(['root', 'alice']))
        elif a == 'raw': x.update(c=[protocol(rng) for _ in range(rng.choice([1, 2, 5]))], who=rng.choice(['root', 'alice', 'carol']), n=rng.choice([1, 1, 4]))
        if a == 'args':
            o = {'fcron': list('dfbyphVoslmcnq'), 'fcrontab': list('ulrezdnhVc'), 'fcrondyn': list('hVdcix')}[x['prog']]
            x['args'] = fargs(rng, o, ['ls', '-x'] if x['prog'] == 'fcrondyn' else [])
            if x['who'] == 'root': x['args'] = ['alice' if q == 'bob' else q for q in x['args']]
            if x['prog'] == 'fcron': x['args'] = [q if q.strip('/.') else '/nowhere' for q in x['args']]      # -n makes the directory one of fcron
        sc['acts'].append(x)
    if any(x['a'] == 'conf' for x in sc['acts']) or sc['env'] or any(x['a'] == 'args' and x['prog'] == 'fcron' for x in sc['acts']): sc['daemon_may_die'] = True
    sc['end'] = 40 + PER * n + 25
    return sc

def envof(w, extra=()): return ['PATH=/usr/bin:/bin', 'HOME=' + ('/root' if w == 'root' else '/home/' + w), 'USER=' + w, 'LOGNAME=' + w, 'SHELL=/bin/sh'] + list(extra)
def build(sc):
    p = base(sc); p.params['log'] = 0; p.params['maxsteps'] = 40000000
    p.file0('/home/alice/t', '* * * * * J8\n', UID['alice'], GID['alice'], '644')
    env = None
    if sc['env']: env = [e for e in ['PATH=/bin:/usr/bin'] + sc['env']]
    p.daemon(1, sc['dargs'], name='d0', env=env)
    p.install(3, 'bob', '&mail(no) * * * * * J1\n', name='ib')
    sc['ends'] = []; sc['cats'] = {}
    for k, x in enumerate(sc['acts']):
        t = 40 + PER * k; T = []
        if x['a'] == 'table':
            w = 'root' if x['who'] != 'alice' else 'alice'; tgt = {'alice': 'alice', 'root': 'root', 'rootu': 'alice', 'systab': 'systab'}[x['who']]
            u = [] if tgt == w else ['-u', tgt]
            x['tgt'] = tgt
            p.run(t, ['/usr/bin/fcrontab'] + u + ['-'], w, stdin='&mail(no) * * * * * %sJ%d\n' % ('root ' if tgt == 'systab' else '', 100 + k), name='g%d' % k)
            p.op(t + 8.9, 'cat', '/var/spool/fcron/%s.orig' % tgt)
            p.op(t + 9, 'probe', 'b%d' % k)
            o = x['opt'] + (['-d'] if x['d'] else [])
            if x['how'] == '-': tag = p.run(t + 62, ['/usr/bin/fcrontab'] + o + u + ['-'], w, stdin=x['text'], name='z%d' % k)
            elif x['how'] == 'file': p.file0('/home/alice/z%d' % k, x['text'], UID[w], GID[w], '644'); tag = p.run(t + 62, ['/usr/bin/fcrontab'] + o + u + ['/home/alice/z%d' % k], w, name='z%d' % k)
            else: p.file0('/plan/edit%d' % k, x['text'], 0, 0, '644'); tag = p.run(t + 62, ['/usr/bin/fcrontab'] + o + u + ['-e'], w, stdin=x['stdin'], env=envof(w, ['EDITOR=/usr/bin/ed', 'EDN=%d' % k, 'EDS=1200']), name='z%d' % k)
            x['tag'] = tag; T.append((tag, 10))
            p.op(t + 80, 'cat', '/var/spool/fcron/%s.orig' % tgt); p.op(t + 80.1, 'probe', 'a%d' % k)
            if x['z']: T.append((p.run(t + 140, ['/usr/bin/fcrontab'] + u + ['-z'], w, name='zz%d' % k), 10))
            T.append((p.run(t + 141, ['/usr/bin/fcrontab'] + u + ['-l'], w, name='zl%d' % k), 10))
            T.append((p.run(t + 145, ['/usr/bin/fcrontab'] + u + ['-r'], w, name='zr%d' % k), 10))
        elif x['a'] == 'conf':
            p.write(t, '/etc/fcron.conf', x['text'], 0, 90, '640')
            for q, (w, a) in enumerate([('alice', ['/usr/bin/fcrontab', '-l']), ('alice', ['/usr/bin/fcrontab', '/home/alice/t']), ('root', ['/usr/bin/fcrondyn', '-x', 'ls']), ('alice', ['/usr/bin/fcrontab', '-e'])]): T.append((p.run(t + 2 + q * 5, a, w, env=envof(w), stdin='i\n', name='c%d%d' % (k, q)), 12))
            if x['stop']: p.op(t + 30, 'sig', 'daemon', 15); p.daemon(t + 40, name='d%d' % (k + 2))
            x['ok'] = x['text'].startswith(CONF)
            if x['ok']:
                T.append((p.install(t + 60, 'alice', '&mail(no) * * * * * J%d\n' % (100 + k), name='ok%d' % k), 10)); p.op(t + 140, 'probe', 'ok')
                T.append((p.fcrontab(t + 141, 'alice', ['-r'], name='okr%d' % k), 10))
            elif not x['stay']: p.write(t + 70, '/etc/fcron.conf', CONF, 0, 90, '640'); p.op(t + 80, 'killall', 'd*', 9); p.daemon(t + 85, name='e%d' % k)
        elif x['a'] == 'list':
            p.write(t, '/etc/fcron.' + x['f'], x['text'], 0, 90, '640')
            for q, (w, a) in enumerate([('alice', ['/usr/bin/fcrontab', '-l']), ('alice', ['/usr/bin/fcrontab', '/home/alice/t']), ('alice', ['/usr/bin/fcrondyn', '-x', 'ls'])]): T.append((p.run(t + 2 + q * 5, a, w, env=envof(w), name='l%d%d' % (k, q)), 70))
        elif x['a'] == 'args':
            pr = {'fcron': '/usr/sbin/fcron', 'fcrontab': '/usr/bin/fcrontab', 'fcrondyn': '/usr/bin/fcrondyn'}[x['prog']]; w = 'root' if x['prog'] == 'fcron' else x['who']
            tag = p.run(t, [pr] + x['args'], w, env=envof(w, ['EDITOR=/usr/bin/ed', 'EDN=%d' % k, 'EDS=1100']), stdin='* * * * * J8\n', name='v%d' % k)
            if x['prog'] != 'fcron': T.append((tag, 80))
        elif x['a'] == 'env':
            for q, a in enumerate([['-x', 'ls']] if x['prog'] == 'fcrondyn' else [['-l'], ['/home/alice/t'], ['-e'], ['-']]):
                T.append((p.run(t + q * 5, ['/usr/bin/' + x['prog']] + a, x['who'], env=['PATH=/usr/bin:/bin', 'EDN=%d' % k, 'EDS=1100'] + x['env'], stdin='* * * * * J8\n', name='e%d%d' % (k, q)), 20))
        elif x['a'] == 'dyn':
            for q, c in enumerate(x['c']): T.append((p.fcrondyn(t + q * 3, x['who'], c, name='y%d%d' % (k, q)), 10 if x['who'] != 'x' else 70))
        elif x['a'] == 'dyni':
            T.append((p.run(t, ['/usr/bin/fcrondyn', '-i'], x['who'], stdin='\n'.join(x['c']) + ('\n' if x['nl'] else ''), name='y%d' % k), 60))
        elif x['a'] == 'raw':
            for q in range(x['n']):
                T.append((p.run(t + q * 2, ['/usr/bin/dynraw', '/var/run/fcron.fifo'] + sum((['s' + c, 'd%d' % (50 * q)] for c in x['c'] if c), []) + ['R1500'], x['who'], name='y%d%d' % (k, q)), 70))
        sc['ends'] += T
    p.op(sc['end'] - .5, 'probe', 'end')
    return p

def check(sc, tr, R):
    for tag, lim in sc['ends']:
        r = tr.runs.get(tag); R.ok(1, 'program ends')
        if r is None or r.end is None: R.fail('hang', '%s does not end' % (r and r.argv,), r and r.t)
        elif r.end - r.t > (lim + 2) * U and not any(x['a'] == 'conf' for x in sc['acts']): R.fail('slow', '%s took %.1f s' % (r.argv, (r.end - r.t) / 1e6), r.t)
        elif r.st & 127: R.fail('signal', '%s died of signal %d' % (r.argv, r.st & 127), r.end)
    cats = {}
    for e in tr.files: cats.setdefault(e['path'], []).append(e)
    mins = lambda a, b: [m for m in range(-(-(tr.real(0) + a) // (60 * U)) * 60 * U - tr.real(0), b, 60 * U)]
    for k, x in enumerate(sc['acts']):
        R.cover('act ' + x['a'])
        if x.get('ok') and not any(y['a'] in ('conf', 'args', 'list') for y in sc['acts'][:k]) and not sc['env']:
            # a file with all the values and a useless line
            t = (40 + PER * k) * U; R.ok(1, 'configuration with a useless line')
            for j in (1, 100 + k):
                if not [jb for jb in tr.of(j) if t + 67 * U <= jb.t <= t + 138 * U]: R.fail('useless-line', 'with a useless line in fcron.conf J%d is not run' % j, t + 138 * U)
        if x['a'] != 'table': continue
        t = (40 + PER * k) * U; r = tr.runs.get(x['tag'])
        if r is None or r.end is None: continue
        cs = sorted([e for e in cats.get('/var/spool/fcron/%s.orig' % x['tgt'], []) if t <= e['t'] <= t + 90 * U], key=lambda e: e['t'])
        if len(cs) < 2: continue
        a, b = cs[0], cs[-1]
        if sc['daemon_may_die'] and not live(tr, t + 60 * U): continue
        if any(y['a'] in ('conf', 'list') for y in sc['acts'][:k]): continue
        R.cover('table via %s: %s' % (x['how'], 'accepted' if r.st == 0 else 'refused'))
        if r.st == 0:
            R.ok(1, 'accepted')
            if b.get('data') is not None and b['data'] != x['text'] and r.end < t + 79 * U: R.fail('orig', 'fcrontab succeeded but the source kept is not the one given', r.end)
        else:
            R.ok(1, 'refused')
            if a.get('data') != b.get('data'): R.fail('refused-orig', 'the table was refused but the installed source changed', r.end)
            for m in mins(r.end + 7 * U, t + 138 * U):
                if not [jb for jb in tr.of(100 + k) if m <= jb.t <= m + 4 * U]: R.fail('refused-lost', 'the table was refused but the former one is not run any more', m); break
    for jb in tr.of(77): R.fail('stale', 'a command written in a comment was run', jb.t); break
    if sc['daemon_may_die'] or any(x['a'] in ('dyn', 'dyni', 'raw') and x['who'] == 'root' for x in sc['acts']): return      # (root may run, kill and shift any job)
    for m in mins(30 * U, (sc['end'] - 6) * U):
        R.ok(1, 'other user')
        n = [jb for jb in tr.of(1) if jb.e['ruid'] == UID['bob'] and m <= jb.t <= m + 5 * U]
        if len(n) != 1: R.fail('other-user', "bob's job ran %d times at its minute" % len(n), m); break
    if not live(tr, tr.T - 1): R.fail('daemon', 'the daemon is not running at the end', tr.T)
