"""P17: the daemon socket lets a user see and act on the jobs of their own table only."""
from common import *
import struct
QUICK = 4000
U = 1000000
MIN = ['ops']
SOCK = '/var/run/fcron.fifo'
WHO = ['alice', 'bob', 'carol', 'root', 'ali', 'eve']            # eve has a uid without an account
KIND = {101: 'list', 102: 'list', 103: 'list', 104: 'list', 105: 'list', 301: 'run', 302: 'run', 401: 'kill', 402: 'renice'}

def msg(*v): return struct.pack('<%dq' % len(v), *v)

def gen_msg(rng, n):
    """the bytes of one send"""
    k = rng.random(); c = rng.choice([101, 102, 103, 104, 105, 301, 302, 401, 402, 402, 401]); ident = rng.randint(1, n + 2) if rng.random() < .9 else rng.choice([0, -1, 1 << 32 | 1, 99])
    if c <= 104: m = [c, rng.choice([1000, 1001, 1002, 1003, 1004, 0, -1, -100, -2, 90, 5555, 1 << 32, (1 << 32) + 1000, (1 << 32) - 1, rng.randint(-200, 2000)])]
    elif c == 105 or c in (301, 302): m = [c, ident]
    elif c == 401: m = [c, rng.choice([15, 9, 1, 10, 2, 64, 0, -1]), ident]
    else: m = [c, rng.choice([19, 5, 0, -1, -20, -5, 20, 21, -21, (1 << 32) - 1, -(1 << 31)]), ident]
    b = msg(*m)
    if k < .7: pass
    elif k < .76: b = b[:rng.randint(1, len(b))]
    elif k < .82: b = b + bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 40)))
    elif k < .88: b = bytes(rng.randint(0, 255) for _ in range(rng.choice([1, 8, 16, 24, 160, 161, 320])))
    elif k < .92: b = b + gen_msg(rng, n)
    else: b = msg(*[rng.choice([101, 301, 401, 402, 1, 2, -1, 0, 1000, rng.randint(-1 << 63, (1 << 63) - 1)]) for _ in range(rng.choice([1, 2, 3, 20]))])
    return b

def gen(rng, i, tier):
    sc = new_sc(rng, 200); n = 0
    for u in ['alice', 'bob', 'carol', 'root', 'systab', 'ali']:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            n += 1; k = rng.choice(['never', 'never', 'long', 'serial', 'serial', 'lavg', 'lavg'])
            opt = {'never': '', 'long': '', 'serial': ',serial', 'lavg': ',lavg1(0.5)'}[k]
            if u in ('root', 'systab') and rng.random() < .2: opt += ',runas(alice)'
            d = {'never': 0, 'long': 500, 'serial': 300, 'lavg': 5}[k]
            sp = '&mail(no)%s 0 0 1 1 *' % opt if k == 'never' or rng.random() < .2 else '@mail(no)%s 40s' % opt if k != 'lavg' else '@mail(no)%s 30s' % opt
            sc['jobs'].append(dict(id=n, user=u, k=k, line='%s J%d d%d' % (sp, n, d), dur=d, never=sp.startswith('&')))
    sc['n'] = n; sc['la'] = 3.0
    t = 30.
    for _ in range(rng.choice([3, 6, 10, 16])):
        t += rng.choice([0, 0, .3, 1, 1, 3, 12])
        u = rng.choice(WHO + ['alice', 'bob', 'eve', 'ali']) ; o = dict(t=round(t, 4), u=u)
        if u == 'eve':
            nm = rng.choice(['alice', 'bob', 'ali', 'root', 'daemon', 'fcron', 'nobody', '']); pw = rng.choice(['pw-' + nm, 'pw-' + nm, 'x', '', 'pw-root', '*', '*0', 'pw-', rng.choice(['pw-' + nm + 'x', 'pw-' + nm + ' ', ('pw-' + nm)[:-1], 'pw-' + nm[:-1] + 'X', 'PW-' + nm, 'pw-' + nm + 'y' * 30])])
            o['bad'] = rng.choice([0, 0, 0, 0, 9, 10, 12, 25]); o['nm'] = nm; o['pw'] = pw
        if u != 'eve' and rng.random() < .3: o['x'] = rng.choice(['ls', 'ls_exeq', 'ls_serialq', 'ls_lavgq', 'ls systab', 'ls root', 'ls bob', 'ls alice', 'ls_exeq systab', 'ls_serialq systab', 'ls_lavgq systab', 'detail %d' % rng.randint(1, n + 1), 'kill term %d' % rng.randint(1, n + 1), 'run %d' % rng.randint(1, n + 1), 'runnow %d' % rng.randint(1, n + 1), 'renice %d %d' % (rng.choice([1, 0, 19, -3]), rng.randint(1, n + 1))])
        else: o['m'] = [gen_msg(rng, n).hex() for _ in range(rng.choice([1, 1, 2, 4]))]; o['d'] = rng.choice([0, 50, 300])
        sc['ops'].append(o)
        if t > 110: break
    if rng.random() < .2: sc['reload'] = round(rng.uniform(35, 100), 3)
    return sc

def build(sc):
    p = base(sc); p.daemon(0.5, ['-l', '5', '-m', '2']); p.op(.1, 'loadavg', sc['la'], sc['la'], sc['la'])
    k = 0
    for u in ['alice', 'bob', 'carol', 'root', 'systab', 'ali']:
        L = [j for j in sc['jobs'] if j['user'] == u]
        if L: p.fcrontab(1 + k * .4, 'root', ['-u', u, '-'], stdin=''.join(j['line'] + '\n' for j in L)); k += 1
    p.fcrondyn(29, 'root', 'ls', name='ids')
    if 'reload' in sc: p.op(sc['reload'], 'sig', 'daemon', 10)
    for k, o in enumerate(sc['ops']):
        if 'x' in o: o['tag'] = p.fcrondyn(o['t'], o['u'], o['x'], name='c%d' % k); continue
        a = ['/usr/bin/dynraw', SOCK]
        if o['u'] == 'eve':
            for _ in range(o['bad']): a += ['s' + b'alice\0no\0'.hex(), 'd10', 'R1']
            a += ['s' + (o['nm'] + '\0' + o['pw'] + '\0').encode().hex(), 'd20', 'r10']
        for m in o['m']: a += ['s' + m, 'd%d' % o['d']]
        a += ['R1500']
        p.tagn += 1; o['tag'] = p.tagn
        if o['u'] == 'eve': p.op(o['t'], 'run', o['tag'], 'c%d' % k, 5555, 5555, '-', '/', '022', 0, '-', 'PATH=/bin', '--', *a)
        else: p.tagn -= 1; o['tag'] = p.run(o['t'], a, o['u'], name='c%d' % k)
    return p

def check(sc, tr, R):
    J = {j['id']: j for j in sc['jobs']}; ids = {}
    for r in tr.runs.values():
        if r.argv[-1] == 'ls' and r.t == 29 * U: ids = parse_ls(r.out or '')
    # who each client is for the daemon
    ops = []; fails = []
    for o in sorted(sc['ops'], key=lambda o: o['t']):
        r = tr.runs.get(o['tag'])
        if r is None: continue
        who = o['u']; out = r.out or ''
        if who == 'eve':
            ok = o['pw'] == 'pw-' + o['nm'] and o['nm'] in UID and (UID[o['nm']] == 0 or UID[o['nm']] >= 1000)
            who = o['nm'] if ok else None
            R.cover('password accepted' if ok and '1' in out[:40] else 'password refused')
        ops.append((o, r, who, out))
    may = lambda who, u: who == 'root' or (who is not None and who == u)
    for o, r, who, out in ops:
        what = 'client %s%s (%s)' % (o['u'], ' as ' + o['nm'] if o['u'] == 'eve' else '', o.get('x') or ' '.join(o['m']))
        for m in re.finditer(r'J(\d+)', out):
            j = J.get(int(m.group(1)))
            if j and not may(who, j['user']): return R.fail('leak', '%s is shown job J%d of %s: %r' % (what, j['id'], j['user'], out[-300:]), r.t)
        R.ok(1, 'answers')
        if who is None and re.search(r'\|CMD|started|completed', out): return R.fail('unauthenticated', '%s is answered although it is not authenticated: %r' % (what, out[:300]), r.t)
    def culprits(t, u, dt):
        """clients at work at that time that may act on the jobs of u"""
        return [x for x in ops if x[1].t <= t + U and (x[1].end is None or x[1].end + dt * U >= t) and may(x[2], u)]
    for e in tr.kills:
        if not re.fullmatch(r'd0', e['p']): continue
        j = J.get(e.get('tj'))
        if e['to'] <= 1 or (j is None and e.get('tn') is not None): return R.fail('kill', 'the daemon sends signal %d to process %s (%s)' % (e['sig'], e['to'], e.get('tn')), e['t'])
        if j and not culprits(e['t'], j['user'], 2): return R.fail('kill', 'the daemon sends signal %d to J%d of %s; no client at that time may do it' % (e['sig'], j['id'], j['user']), e['t'])
        R.ok(1, 'signals')
    for e in [z for z in tr.ev if z['e'] == 'renice']:
        if not re.fullmatch(r'd0', e['p']): continue
        j = J.get(e.get('tj'))
        if j is None: return R.fail('renice', 'the daemon renices process %s (%s)' % (e['to'], e.get('tn')), e['t'])
        c = culprits(e['t'], j['user'], 2)
        if not c: return R.fail('renice', 'the daemon renices J%d of %s; no client at that time may do it' % (j['id'], j['user']), e['t'])
        if e['prio'] < 0 and not any(x[2] == 'root' for x in c): return R.fail('raise', 'J%d of %s is given a nice value of %d by a client other than root' % (j['id'], j['user'], e['prio']), e['t'])
        R.ok(1, 'renices')
    if 'reload' in sc: return
    last = {}
    for jb in tr.jobs:
        j = J[jb.id]
        if not j['never'] : continue
        if not [x for x in ops if x[1].t <= jb.t + U and may(x[2], j['user'])]: return R.fail('run', 'J%d of %s runs: nobody who may do it asked for it' % (j['id'], j['user']), jb.t)
        R.ok(1, 'runs')
    # password guessing is limited, and a right password is accepted
    total = sum(o['bad'] + 1 + len(o['m']) for o, r, who, out in ops if o['u'] == 'eve')
    for o, r, who, out in ops:
        if o['u'] != 'eve' or r.end is None: continue
        m = re.match(r'(?:0\0)*', out); n = len(m.group(0)) // 2; acc = out[m.end():m.end() + 2] == '1\0'
        if acc and n >= 10: return R.fail('guess', 'a password is accepted right after %d failures' % n, r.t)
        if who is not None and not acc and total < 9: return R.fail('password', 'the right password of %s is refused: %r' % (who, out[:60]), r.t)
        if n >= 9: R.cover('many failures')
