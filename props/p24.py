"""P24: whatever bytes a saved table holds, the daemon lives, other users' jobs run on schedule, nothing runs as someone else, and a good table can be installed again."""
from common import *
QUICK = 2200
THOROUGH = 60000
U = 1000000
MIN = ['faults', 'bad']
SP = '/var/spool/fcron/'
TYPES = [1, 2, 3, 4, 1000] + list(range(2000, 2022))
BIG = [0, 1, -1, 5, 59, 255, 256, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 62, (1 << 63) - 1, -(1 << 63), -(1 << 62), 971859427200, 971859427201, 10 ** 15, 10 ** 17, 67768036191676799, 67768036191676800, 300, 60]

def fields(b):
    out = []; i = 0
    while i + 4 <= len(b):
        t, n = struct.unpack('<hh', b[i:i + 4]); n = max(n, 0)
        out.append([t, n, b[i + 4:i + 4 + n]]); i += 4 + n
    return out
def ser(F): return b''.join(struct.pack('<hh', t, n) + d for t, n, d in F)

def good(rng, user, rt, n):
    L = []
    for k in range(n):
        x = dict(shell='J%d' % (900 + k) + rng.choice(['', '', ' d1', ' d3', ' o5']), runas=user, opt=[])
        if rng.random() < .5: x['opt'] = [7, 20]
        for o in rng.choice([[], [], [5], [1], [4], [9], [22], [24], [26], [28], [30], [1, 5], [13], [16, 18]]): x['opt'].append(o)
        if rng.random() < .4: x['every'] = rng.choice([7, 20, 60, 300])
        x['nextexe'] = rng.choice([0, rt + 30, rt + 90, rt - 1000, rt - 86400 * 30, rt + 3600])
        ex = []
        for t in [2002, 2003, 2004, 2005, 2009, 2011, 2019, 2020, 2021]:
            if rng.random() < .25:
                ex.append((t, {2002: bytes([rng.choice([1, 2, 3, 255])]), 2003: bytes([1, 5, 9]), 2004: rng.choice([30, 60, 3600]), 2005: bytes([rng.choice([1, 10, 250])]), 2009: rng.choice([0, 1, 2, 9]), 2011: rng.choice([1, 2, 3, 9]), 2019: b'Europe/Paris', 2020: rng.choice([5, 60, 255]), 2021: b'me@x'}[t]))
        x['extra'] = ex; L.append(x)
    return compiled(user, L, tsave=rng.choice([0, rt - 60, rt, rt + 5000, rt - 86400 * 400]), env=rng.choice([[], ['A=b'], ['MAILTO=x', 'SHELL=/bin/sh', 'TZ=UTC']]), tzdiff=rng.choice([0, 0, 0, 1, -5])).encode('latin1')

def damage(rng, b, user):
    k = rng.choice(['trunc', 'flip', 'flips', 'rand', 'empty', 'field', 'field', 'field', 'fields', 'fields', 'bits', 'times', 'times', 'dup', 'swap', 'user', 'unknown', 'unknown', 'zeros', 'long', 'size', 'size', 'none', 'concat', 'head'])
    if k == 'trunc': b = b[:rng.randint(0, len(b))]
    elif k in ('flip', 'flips'):
        a = bytearray(b)
        for _ in range(1 if k == 'flip' else rng.randint(2, 12)): a[rng.randrange(len(a))] ^= 1 << rng.randrange(8)
        b = bytes(a)
    elif k == 'rand': b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 4, 12, 40, 400, 5000])))
    elif k == 'empty': b = b''
    elif k == 'zeros': i = rng.randint(0, len(b)); b = b[:i] + bytes(rng.choice([1, 8, 512, len(b) - i]))
    elif k == 'concat': b = b + b[rng.randint(0, len(b)):]
    elif k == 'head':
        F = fields(b); F[0][2] = struct.pack('<q', rng.choice([0, 99, 101, -1, 100 + (1 << 32)])); b = ser(F)
    elif k in ('field', 'fields', 'bits', 'times', 'dup', 'swap', 'user', 'unknown', 'long', 'size'):
        F = fields(b)
        for _ in range(1 if k in ('field', 'unknown', 'size', 'user', 'long') else rng.randint(1, 6)):
            i = rng.randrange(len(F)); f = F[i]
            kk = k
            if k in ('field', 'fields'): kk = rng.choice(['val', 'val', 'type', 'size', 'drop', 'dup', 'bits', 'times'])
            if kk == 'val' and f[0] not in (2, 2006):
                f[2] = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(f[1]))
            elif kk == 'type' and f[0] != 2: f[0] = rng.choice(TYPES)
            elif kk == 'size':
                f[1] = rng.choice([-1, -2, -32768, 32767, 0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 64, 200, 4096])
                if rng.random() < .6 and f[1] >= 0: f[2] = (f[2] + bytes(rng.choice([65, 0, 255, rng.randrange(256)]) for _ in range(f[1])))[:f[1]]
            elif kk == 'drop': del F[i]
            elif kk == 'dup': F.insert(rng.randint(min(3, len(F)), len(F)), list(f))
            elif kk == 'swap': j = rng.randrange(len(F)); F[i], F[j] = F[j], F[i]
            elif kk == 'bits':
                c = [g for g in F if g[0] in (2012, 2013, 2014, 2015, 2016, 2017)]
                if c: g = rng.choice(c); g[2] = bytes(rng.choice([0, 0, 255, 1, 128, rng.randrange(256)]) for _ in range(g[1])) if rng.random() < .7 else bytes(g[1])
            elif kk == 'times':
                c = [g for g in F if g[0] in (3, 4, 2004, 2008, 2009, 2010, 2011, 2018, 2020) and g[1] == 8]
                if c: rng.choice(c)[2] = struct.pack('<q', rng.choice(BIG))
                if rng.random() < .3: F.insert(rng.randint(3, max(3, len(F) - 1)), [rng.choice([2004, 2008, 2009, 2010, 2011, 2018, 2020, 4]), 8, struct.pack('<q', rng.choice(BIG))])
            elif kk == 'user': F[1] = [2, 3, rng.choice([b'bob', b'bob', b'carol', b'nobodyatall', b'', b'\0', b'../x', b'root', b'bob\0', b'systab'])]; F[1][1] = len(F[1][2])
            elif kk == 'unknown':
                d = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 8, 100, 5000]))); F.insert(rng.randint(3, max(3, len(F) - 1)), [rng.choice([5, 999, 1001, 2022, 2100, -1, 0, 32767]), len(d), d])
            elif kk == 'long':
                c = [g for g in F if g[0] in (1000, 2001, 2006, 2007, 2019, 2021)]
                if c: g = rng.choice(c); n = rng.choice([255, 256, 1023, 1024, 1025, 2000, 5000, 32767]); g[2] = (b'A=' + b'x' * n)[:n]; g[1] = n
            if not F: break
        b = ser(F)
    return k, b

def gen(rng, i, tier):
    rt = rand_rt(rng); sc = new_sc(rng, rng.choice([330, 400]), rt=rt, pm=rng.choice([0, 0, 20000]))
    sc['bad'] = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        u = rng.choice(['alice', 'alice', 'alice', 'carol']); new = rng.random() < .45
        b = good(rng, u, rt, rng.choice([1, 1, 2, 4, 9]))
        k, d = damage(rng, b, u)
        if new and rng.random() < .1:
            # the owner of a new table is the one of the file, whatever it says
            k = 'runas'; F = fields(b)
            for f in F:
                if f[0] == 2006 or (f[0] == 2 and rng.random() < .3): f[2] = rng.choice([b'root', b'bob', b'carol', b'alice', b'nobody9']); f[1] = len(f[2])
            d = ser(F)
        elif rng.random() < .05:
            # a line without any matching date
            k = 'never'; F = fields(b)
            for f in F:
                if f[0] in (2012, 2013, 2014, 2015, 2016) and rng.random() < .5: f[2] = bytes(f[1])
                if f[0] == 2008 and rng.random() < .7: f[2] = bytes(8)
            d = ser(F)
        if rng.random() < .2: k2, d = damage(rng, d, u) if len(fields(d)) > 3 else (k, d); k += '+' + k2
        if rng.random() < .06:
            # a field of another version: the lines after the one it is in are kept
            k = 'foreign'; F = fields(compiled(u, [dict(shell='J910', runas=u, every=20, opt=[20]), dict(shell='J911', runas=u, every=20, opt=[20])]).encode('latin1'))
            n = rng.choice([0, 1, 8, 100, 3000]); e = [f[0] for f in F].index(2000); F.insert(rng.randint(3, e + 1), [rng.choice([5, 1001, 2022, 30000]), n, bytes(rng.randrange(256) for _ in range(n))]); d = ser(F)
        elif rng.random() < .15:
            # only absurd times
            k = 'absurd'; F = fields(compiled(u, [dict(shell='J920', runas=u, every=20, opt=[20] + rng.choice([[], [24], [26], [28, 30], [1]]), nextexe=rng.choice([0, rt + 10])), dict(shell='J921', runas=u, opt=[20] + rng.choice([[], [1], [4], [9]]), nextexe=rng.choice([0, rt - 50, rt + 50]), extra=[(2003, bytes([1, 1, 1])), (2004, 60)])]).encode('latin1'))
            for f in rng.sample([f for f in F if f[0] in (3, 2008, 2010, 2018, 2004)], rng.choice([1, 1, 2])): f[2] = struct.pack('<q', rng.choice(BIG))
            d = ser(F)
        sc['bad'].append(dict(u=u, k=k, d=d.decode('latin1'), new=new, t=rng.choice([0, 0, 50]) if new else 0, sig=rng.choice([1, 1, 10])))
    sc['second'] = rng.choice([None, 'term', 'crash', 'usr1'])
    sc['debug'] = rng.random() < .3
    sc['m'] = rng.choice([1, 2, 8])
    sc['lavg'] = rng.choice([0, 3])
    sc['dyn'] = rng.random() < .5
    return sc

def build(sc):
    p = base(sc); p.params['log'] = 1
    for u, j in (('bob', 1), ('root', 2)):
        p.file0(SP + u, compiled(u, [dict(shell='J%d' % j, runas=u, opt=[20]), dict(shell='J%d' % (10 + j), runas=u, every=30, opt=[20])], tsave=sc['rt'] - 100), 0, 0, '640')
    p.op(0, 'loadavg', sc['lavg'], sc['lavg'], sc['lavg'])
    late = []
    for x in sc['bad']:
        fn = SP + ('new.' if x['new'] else '') + x['u']; ow = UID[x['u']] if x['new'] else 0
        if x['t']: p.write(x['t'], fn, x['d'], ow, 90, '640'); late.append((x['t'] + .01, x['sig']))
        else: p.file0(fn, x['d'], ow, 90 if x['new'] else 0, '640')
    a = ['-m', str(sc['m'])] + (['-d'] if sc['debug'] else [])
    p.daemon(1, a, name='d0')
    for t, s in late: p.op(t, 'sig', 'daemon', s)
    e = sc['end']
    if sc['second'] == 'term': p.op(125.3, 'sig', 'daemon', 15); p.daemon(130, a, name='d1')
    elif sc['second'] == 'crash': p.op(125.3, 'crash'); p.op(125.300001, 'wiperun'); p.daemon(130, a, name='d1')
    elif sc['second'] == 'usr1': p.op(125.3, 'sig', 'daemon', 10)
    if sc['dyn']:
        p.fcrondyn(90.5, 'root', 'ls', name='y0'); p.fcrondyn(91.5, 'alice', 'ls', name='y1'); p.fcrondyn(92.5, 'root', 'lq', name='y2'); p.fcrondyn(93.5, 'root', 'sq', name='y3')
    for k, u in enumerate(sorted(set(x['u'] for x in sc['bad']))):
        p.install(195 + k, u, '&mail(no) * * * * * J%d\n' % (50 + k), name='i%d' % k)
    p.op(e - .1, 'probe', 'end')
    return p

def check(sc, tr, R):
    off = tr.real(0); own = set(UID[x['u']] for x in sc['bad'])
    if any(x['u'] == 'alice' and not x['new'] for x in sc['bad']): own.add(UID['ali'])     # 'alice' cut short in a file of root, which is trusted
    gaps = [(120 * U, 155 * U)] if sc['second'] else []
    down = 20 + 1 + 2
    def want(j, t0, uid, what):
        first = -(-(off + t0) // (60 * U)) * 60 * U - off
        got = sorted(jb.t for jb in tr.jobs if jb.id == j and jb.e['ruid'] == uid)
        for m in range(first, (sc['end'] - 5) * U, 60 * U):
            if any(a - 1 * U <= m <= b for a, b in gaps): continue
            n = [t for t in got if m - 1 * U <= t <= m + 8 * U]
            R.ok(1, what)
            if len(n) != 1: return R.fail('%s-%s' % (what, 'missing' if not n else 'twice'), '%s job J%d ran %d times at its minute' % (what, j, len(n)), m)
    want(1, 25 * U, UID['bob'], 'other user'); want(2, 25 * U, 0, 'root')
    for k, u in enumerate(sorted(set(x['u'] for x in sc['bad']))): want(50 + k, 205 * U, UID[u], 'reinstalled')
    for j in (11, 12):
        got = sorted(jb.t for jb in tr.jobs if jb.id == j and jb.e['ruid'] not in own)
        R.ok(1, 'other elapsed')
        n = len([t for t in got if 30 * U < t])
        lo = (sc['end'] - 30 - 12) // 30 - (2 if sc['second'] in ('term', 'crash') else 1 if sc['second'] else 0)
        if n < lo or n > (sc['end'] - 20) // 30 + 1: R.fail('other-elapsed', 'J%d ran %d times, %d expected' % (j, n, lo), 0)
    for jb in tr.jobs:
        e = jb.e
        u = UID['bob'] if jb.id in (1, 11) else 0 if jb.id in (2, 12) else UID[sorted(set(x['u'] for x in sc['bad']))[jb.id - 50]] if 50 <= jb.id < 60 else None
        R.ok(1, 'identity')
        if u is not None and e['ruid'] not in own | {u}:
            R.fail('identity', 'J%d ran as %s' % (jb.id, e['ruid']), jb.t)
        elif u is None and e['ruid'] not in own: R.fail('identity', 'job of the damaged table (%r) ran as uid %s' % (e['argv'][-1], e['ruid']), jb.t)
    for e in tr.ev:
        if e['e'] == 'exec' and e['exe'].endswith('/sh') and e['ruid'] not in own | {0, UID['bob']}: R.fail('identity', 'something ran as uid %s' % e['ruid'], e['t'])
    for x in sc['bad']:
        if x['k'] == 'foreign' and len([y for y in sc['bad'] if y['u'] == x['u']]) == 1:
            R.ok(1, 'after a foreign field')
            if len([1 for jb in tr.jobs if jb.id == 911 and jb.e['ruid'] == UID[x['u']]]) < 3: R.fail('foreign-field', 'the line after an unknown field is not run', 190 * U)
    for x in sc['bad']: R.cover('damage ' + x['k'].split('+')[0])
    R.cover('second %s' % sc['second'])
    if not live(tr, tr.T - 1): R.fail('daemon', 'the daemon is not running at the end', tr.T)
