"""P32: a password that fcrontab asks for decides about the access, is never shown, and the question always ends."""
from common import *
QUICK = 1500
THOROUGH = 20000
U = 1000000
OLD = '1 1 1 1 * J7\n'; NEW = '2 2 2 2 * J8\n'

def gen(rng, i, tier):
    sc = new_sc(rng, 300); ops = []; t = 10
    for k in range(rng.randint(1, 5)):
        u = rng.choice(['alice', 'bob', 'root']); mode = None
        typed = rng.choice(['right', 'right', 'right', 'wrong', 'empty', 'other', 'long', 'eof', 'prefix', 'nonl', 'hangup'])
        act = rng.choice(['file', 'file', 'file', 'r', 'l', 'z', 'e'])
        o = dict(t=t + round(rng.random(), 3), u=u, typed=typed, act=act, dev=rng.choice(['tty', 'tty', 'tty', 'pipe']), wait=rng.choice([0, 0, 1, 2]), sig=None, io=rng.random() < .03)
        if o['wait'] and o['dev'] == 'tty' and rng.random() < .5: o['sig'] = [rng.choice([28, 28, 18, 2, 2, 3]), round(rng.uniform(.2, 1.9), 3)]
        ops.append(o); t += 20
    sc['ops'] = ops; sc['mode'] = {u: rng.choice([1, 1, 1, 2, 3, 4, 5]) for u in ('alice', 'bob', 'root')}; sc['end'] = int(t + 30); sc['d'] = rng.random() < .2
    return sc

def typed(sc, o):
    pw = 'pw-' + o['u']; x = dict(right=pw + '\n', wrong='secret-guess\n', empty='\n', other='pw-carol\n', long='secret' * 200 + '\n', eof='\4', hangup='\5', prefix=pw[:-1] + '\n', nonl=pw)[o['typed']]
    m = sc['mode'][o['u']]; L = ['1234\n'] if m == 2 else []
    L.append(x)
    if m == 5: L.append(x)
    return '\1' * o['wait'] + ''.join(L)

def asked(sc, o): return True

def build(sc):
    p = base(sc); p.params['log'] = 1
    for u, m in sc['mode'].items(): p.head.append('pam %s:9:%d' % (u, m))
    for u in ('alice', 'bob', 'root'):
        p.file0('/home/%s/n' % u if u != 'root' else '/root/n', NEW, UID[u], GID[u], '644')
        p.file0('/var/spool/fcron/%s.orig' % u, OLD, 0 if u == 'root' else 90, 0 if u == 'root' else 90, '640' if u != 'root' else '600')
    for k, o in enumerate(sc['ops']):
        s = typed(sc, o); a = {'file': ['n'], 'r': ['-r'], 'l': ['-l'], 'z': ['-z'], 'e': ['-e']}[o['act']]
        h = '/root/' if o['u'] == 'root' else '/home/%s/' % o['u']
        if o['act'] == 'file': a = [h + 'n']
        if sc['d']: a = ['-d'] + a
        if o['dev'] == 'pipe': s = s.replace('\1', '').replace('\4', '').replace('\5', '')
        p.run(o['t'], ['/usr/bin/fcrontab'] + a, o['u'], stdin=('tty:' if o['dev'] == 'tty' else '') + s, name='f%d' % k)
        p.op(o['t'] - .01, 'cat', '/var/spool/fcron/%s.orig' % o['u']); p.op(o['t'] + 18, 'cat', '/var/spool/fcron/%s.orig' % o['u'])
        if o['sig']: p.op(o['t'] + o['sig'][1], 'sig', 'f%d' % k, o['sig'][0])
        if o['io']: p.fault('f%d' % k, 'read', 1, 100000, 'E', 5, o['t'], o['t'] + 18)
    return p

def check(sc, tr, R):
    secrets = ['pw-alice', 'pw-bob', 'pw-root', 'secretsecret', 'secret-guess']
    cats = {}
    for e in tr.files: cats.setdefault(e['path'], []).append(e)
    for k, o in enumerate(sc['ops']):
        n = 'f%d' % k; r = next(r for r in tr.runs.values() if r.name == n); m = sc['mode'][o['u']]
        ev = [e for e in tr.ev if e.get('p') == n]
        intr = o['sig'] and o['sig'][0] not in (28, 18)
        if r.end is None: return R.fail('endless', 'fcrontab never ends (typed: %s)' % o['typed'], r.t)
        echo = 1
        for e in ev:
            if e['e'] == 'ttyset': echo = e['echo']
            elif e['e'] == 'ttyread':
                if e['echo'] and any(s[:6] in e['x'] for s in secrets): return R.fail('echo', 'the password %r is shown while it is typed' % e['x'], e['t'])
                if not e['echo'] and e['x'].startswith('1234'): return R.fail('noecho', 'the login code is not shown while it is typed', e['t'])
                R.ok(1, 'reading from the terminal')
        if not echo: return R.fail('restore', 'the terminal is left without echo%s' % (' (signal %d)' % o['sig'][0] if o['sig'] else ''), r.end)
        if any(s in r.out or s in r.err for s in secrets): return R.fail('leak', 'the password is printed: %r' % (r.out + r.err)[:200], r.t)
        for e in tr.logs:
            if any(s in e['m'] for s in secrets): return R.fail('log', 'the password is logged: %r' % e['m'], e['t'])
        pre = [e for e in cats.get('/var/spool/fcron/%s.orig' % o['u'], []) if e['t'] < r.t][-1:]; post = [e for e in cats.get('/var/spool/fcron/%s.orig' % o['u'], []) if e['t'] > r.t][:1]
        if not pre or not post: continue
        a = None if pre[0].get('err') else pre[0]['data']; b = None if post[0].get('err') else post[0]['data']
        right = o['typed'] in ('right', 'nonl') 
        if o['dev'] == 'pipe': right = None if m in (2, 5) or o['typed'] == 'nonl' else right      # one read takes all that is there
        if m == 5 and o['typed'] == 'nonl' or m == 5 and o['wait'] and 0: right = None
        if o['io'] or intr: right = None if o['sig'] and not intr else False if o['io'] else None
        if right is False or r.st & 127:
            if a != b: return R.fail('access', 'the table changed although the password was not given (%s)' % o['typed'], r.t)
            if r.st == 0: return R.fail('status', 'fcrontab reports success although the password was not given (%s)' % o['typed'], r.t)
            if o['act'] == 'l' and a and a.strip() in r.out: return R.fail('access', 'the table is shown although the password was not given', r.t)
            R.ok(1, 'refused: ' + o['typed'])
        elif right:
            if o['act'] == 'file' and b != NEW: return R.fail('refused', 'the right password is refused (status %d): %r' % (r.st, r.err[-200:]), r.t)
            if o['act'] == 'r' and b is not None: return R.fail('refused', 'the right password is refused (status %d): %r' % (r.st, r.err[-200:]), r.t)
            if o['act'] == 'l' and a is not None and a.strip() not in r.out: return R.fail('refused', 'the right password is refused (status %d): %r' % (r.st, r.err[-200:]), r.t)
            R.ok(1, 'accepted: mode %d' % m)
