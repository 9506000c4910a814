"""P18: every fcrondyn request is answered completely, whatever other clients do."""
from common import *
import struct
QUICK = 2500
U = 1000000
MIN = ['ops', 'jobs', 'faults']
SOCK = '/var/run/fcron.fifo'
OWN = ['alice', 'bob', 'carol', 'root']
MAXC, IDLE, AUTH = 25, 600, 60

def msg(*v): return struct.pack('<%dq' % len(v), *v).hex()

def gen_cmd(rng, n):
    """a well-formed request: numbers of the protocol and what fcrondyn is given"""
    k = rng.random(); i = rng.randint(1, n)
    if k < .45: return rng.choice([['ls', 101], ['ls', 101], ['ls_lavgq', 102], ['ls_serialq', 103], ['ls_exeq', 104]])
    if k < .6: return ['detail %d' % i, 105, i]
    if k < .7: return ['run %d' % i, 302, i]
    if k < .78: return ['runnow %d' % i, 301, i]
    if k < .9: return ['kill cont %d' % i, 401, 18, i]
    return ['renice 3 %d' % i, 402, 3, i]

def gen(rng, i, tier):
    kind = rng.choice(['mix', 'mix', 'mix', 'idle', 'many', 'big', 'churn'])
    sc = new_sc(rng, 200, kind=kind); n = 0
    for u in OWN:
        for _ in range(rng.choice([0, 1, 2, 6]) if kind != 'big' else rng.choice([5, 30, 60])):
            n += 1; k = rng.choice(['never', 'never', 'long', 'serial', 'lavg', 'tick'])
            o, s, c = {'never': ('', '&', ' 0 0 1 1 *'), 'long': ('', '@', ' 35s'), 'serial': (',serial', '@', ' 40s'), 'lavg': (',lavg1(0.5)', '@', ' 30s'), 'tick': ('', '@', ' 10s')}[k]
            sc['jobs'].append(dict(id=n, user=u, k=k, line='%smail(no)%s%s J%d d%d%s' % (s, o, c, n, {'never': 1, 'long': 400, 'serial': 30, 'lavg': 2, 'tick': 0}[k], ' ' + 'y' * rng.choice([1, 60, 140, 300]) if rng.random() < .3 else '')))
    if not n: n = 1; sc['jobs'].append(dict(id=1, user='alice', k='tick', line='@mail(no) 10s J1 d0'))
    t = 30.; sc['end'] = 170
    C = sc['ops']
    for _ in range(rng.choice([2, 4, 8, 14])):
        t += rng.choice([0, 0, .002, .05, .6, 2, 7]); u = rng.choice(OWN); g = rng.random()
        if g < .4: C.append(dict(t=round(t, 4), u=u, a='x', c=gen_cmd(rng, n), d=rng.random() < .1))
        elif g < .5: C.append(dict(t=round(t, 4), u=u, a='i', c=[gen_cmd(rng, n) for _ in range(rng.choice([1, 2, 5]))]))
        elif g < .7: C.append(dict(t=round(t, 4), u=u, a='raw', c=[gen_cmd(rng, n) for _ in range(rng.choice([1, 2, 4]))], wait=rng.choice([0, 0, 100, 3000]), slow=rng.choice([0, 0, 500, 3000])))
        else:
            # a badly behaved one
            C.append(dict(t=round(t, 4), u=rng.choice(OWN + ['eve', 'eve']), a='bad', how=rng.choice(['gone', 'gone', 'goneread', 'part', 'junk', 'flood', 'hang', 'bytes', 'hold', 'noread']), n=rng.randint(1, 60), c=gen_cmd(rng, n)))
        if t > 120: break
    if rng.random() < .3: sc['faults'].append(['@fcrondyn', 'recv', rng.randint(1, 4), rng.choice([1, 2]), 'E', 4])
    if rng.random() < .15: C.append(dict(t=round(rng.uniform(31, 60), 3), a='cut', u='root', n=rng.randint(0, len(C) - 1)))
    if kind in ('idle', 'many'):
        sc['end'] = 820 if kind == 'idle' else rng.choice([200, 760])
        m = rng.choice([1, 2, 5]) if kind == 'idle' else rng.choice([23, 24, 25, 26, 30, 40])
        t0 = 30 + rng.random() * 20
        for k in range(m):
            t0 += rng.choice([0, .001, .3, 1, 4]) if kind == 'idle' else rng.choice([0, .01, .3])
            C.append(dict(t=round(t0, 4), u=rng.choice(['eve', 'alice', 'bob', 'root']), a='wait', use=rng.choice([0, 0, 0, 20, 100, 300]) if kind == 'idle' else 0))
        for _ in range(4): t = t0 + rng.uniform(1, 15); C.append(dict(t=round(t, 4), u=rng.choice(OWN), a='x', c=gen_cmd(rng, n)))
        if rng.random() < .4: sc['jobs'] = [j for j in sc['jobs'] if j['k'] == 'never'] or [dict(id=1, user='alice', k='never', line='&mail(no) 0 0 1 1 * J1 d1')]     # nothing else wakes the daemon up
    if kind == 'churn':
        t = 40.
        for k in range(rng.choice([30, 60])): t += rng.choice([0, .01, .1]); C.append(dict(t=round(t, 4), u=rng.choice(OWN + ['eve']), a='bad', how=rng.choice(['gone', 'goneread', 'hang', 'hang']), n=3, c=gen_cmd(rng, n)))
        C.append(dict(t=round(t + 2, 4), u='root', a='x', c=['ls', 101]))
    if kind == 'big' and rng.random() < .35: sc['sockcap'] = rng.choice([200, 1000, 3000])
    return sc

def build(sc):
    p = base(sc); p.daemon(0.5, ['-l', '5', '-m', '2']); p.op(.1, 'loadavg', 3, 3, 3)
    if 'sockcap' in sc: p.params['sockcap'] = sc['sockcap']
    for k, u in enumerate(OWN):
        L = [j for j in sc['jobs'] if j['user'] == u]
        if L: p.fcrontab(1 + k * .4, 'root', ['-u', u, '-'], stdin=''.join(j['line'] + '\n' for j in L))
    def raw(t, u, a, name):
        a = ['/usr/bin/dynraw', SOCK] + a
        if u != 'eve': return p.run(t, a, u, name=name)
        p.tagn += 1; p.op(t, 'run', p.tagn, name, 5555, 5555, '-', '/', '022', 0, '-', 'PATH=/bin', '--', *a); return p.tagn
    def num(o, c): return msg(c[1], -1 if o['u'] == 'root' else UID[o['u']]) if c[1] < 105 else msg(*c[1:])
    for k, o in enumerate(sc['ops']):
        nm = 'c%d' % k
        if o['a'] == 'x': o['tag'] = p.run(o['t'], ['/usr/bin/fcrondyn'] + (['-d'] if o.get('d') else []) + ['-x', o['c'][0]], o['u'], name=nm)
        elif o['a'] == 'i': o['tag'] = p.run(o['t'], ['/usr/bin/fcrondyn', '-i'], o['u'], stdin=''.join(c[0] + '\n' for c in o['c']) + 'quit\n', name=nm)
        elif o['a'] == 'raw':
            a = []
            for c in o['c']: a += ['d%d' % o['wait'], 's' + num(o, c), 'd%d' % o['slow'], 'R1500']
            o['tag'] = raw(o['t'], o['u'], a, nm)
        elif o['a'] == 'wait': o['tag'] = raw(o['t'], o['u'], (['d%d' % (o['use'] * 1000), 's' + msg(101, 0 if o['u'] == 'root' else UID.get(o['u'], 5555))] if o['use'] else []) + ['R800000'], nm)
        elif o['a'] == 'cut': p.op(o['t'], 'killall', 'c%d' % o['n'], 9)
        else:
            m = num(o, o['c']) if o['u'] != 'eve' else 'ab' * 10
            a = {'gone': ['s' + m], 'goneread': ['s' + m, 'r10'], 'part': ['s' + m[:2 * max(1, o['n'] % (len(m) // 2))], 'd5000'], 'junk': ['s' + ('%02x' % (o['n'] * 7 % 256)) * o['n'], 'd300'], 'flood': ['z%d' % (o['n'] * 1500), 'd2000'], 'hang': [], 'hold': ['d60000'],
                 'bytes': sum((['s' + m[q:q + 2], 'd30'] for q in range(0, len(m), 2)), []), 'noread': ['s' + m, 'd40'] * min(o['n'], 20) + ['d3000']}[o['how']]
            o['tag'] = raw(o['t'], o['u'], a, nm)
    for t in range(30, sc['end'] - 5, 10): p.op(t + .4, 'probe', 'x')
    p.op(sc['end'] - 4, 'probe', 'last')
    for f in sc['faults']: p.fault(*f)
    return p

HEAD = r'ID   .*\|CMD\n'
ROW = r'\d+ *\|'
def complete(o, c, txt, jobs, R, sc, what, t, strict=True):
    """is the text of an answer (without its NULs) a complete one?"""
    root = o['u'] == 'root'
    own = [j for j in jobs if root or j['user'] == o['u']]
    L = [l for l in txt.split('\n') if l]
    if c[1] == 101:
        if not L or not re.fullmatch(r'ID .*\|CMD', L[0]): return 'the header is missing'
        got = [int(m.group(1)) for l in L[1:] for m in [re.search(r'\bJ(\d+)', l)] if m]
        if sorted(got) != sorted(j['id'] for j in own): return 'it lists J%s rather than J%s' % (sorted(got), sorted(j['id'] for j in own))
        if not own and 'No corresponding job' not in txt: return 'nothing says that there is no job'
        R.ok(1, 'listings of %s jobs' % ('many' if len(own) > 30 else 'few'))
    elif c[1] in (102, 103, 104, 105):
        if not any(re.fullmatch(r'ID .*\|CMD', l) for l in L[:2]): return 'the header is missing'
        if len(L) < 2: return 'neither a job nor a message follows the header'
        if c[1] == 102 and not L[0].startswith('Current load average'): return 'the load average is missing'
    elif not L: return 'it is empty'
    R.ok(1, 'answers to %s' % c[0].split()[0])

def check(sc, tr, R):
    jobs = sc['jobs']; small = sc.get('sockcap', 1 << 20)
    cut = {o['n'] for o in sc['ops'] if o['a'] == 'cut'}
    cap = 45 + sum(260 if len(j['line']) > 120 else 130 for j in jobs)
    conns = len([o for o in sc['ops'] if o['a'] in ('wait', 'bad', 'raw')])
    for k, o in enumerate(sc['ops']):
        if o['a'] == 'cut' or k in cut: continue
        r = tr.runs[o['tag']]; what = '%s of %s' % ({'x': 'fcrondyn -x', 'i': 'interactive fcrondyn'}.get(o['a'], 'request') , o['u'])
        evict = conns + 2 > MAXC
        if o['a'] in ('x', 'i'):
            cs = [o['c']] if o['a'] == 'x' else o['c']
            late = r.end is None or r.end - r.t > 3 * U + (2 * U if sc['params'].get('preempt') else 0)
            if small < cap and (late or r.st):
                if late: return R.fail('answer-over-socket-buffer', '%s %r: the answer does not fit in the buffer of the socket (%d bytes): its end is lost and fcrondyn waits' % (what, [c[0] for c in cs], small), r.t)
                continue
            if late: return R.fail('late', '%s %r: no complete answer after %s s' % (what, [c[0] for c in cs], 'many' if r.end is None else round((r.end - r.t) / U, 2)), r.t)
            if evict and o['a'] == 'i' and 'connection closed' in (r.err or ''): continue
            if r.st: return R.fail('failed', '%s %r: exit status %d: %r' % (what, [c[0] for c in cs], r.st, (r.err or '')[-200:]), r.t)
            out = (r.out or '').replace('fcrondyn> ', '')
            if o['a'] == 'x' or len(cs) == 1:
                e = complete(o, cs[0], out, jobs, R, sc, what, r.t)
                if e and small < cap: return R.fail('answer-over-socket-buffer', '%s %r: part of the answer is lost: %s' % (what, cs[0][0], e), r.t)
                if e: return R.fail('incomplete', '%s %r: %s; answer: %r' % (what, cs[0][0], e, out[:400]), r.t)
            else:
                n = sum(c[1] == 101 for c in cs); own = [j for j in jobs if o['u'] == 'root' or j['user'] == o['u']]
                if small >= cap and n and n == len(cs) and len(re.findall(r'\bJ\d+', out)) != n * len(own): return R.fail('incomplete', '%s: %d listings of %d jobs give %d lines: %r' % (what, n, len(own), len(re.findall(r'\bJ\d+', out)), out[:400]), r.t)
                if len([l for l in out.split('\n') if l]) < len(cs): return R.fail('incomplete', '%s: %d requests are answered by %r' % (what, len(cs), out[:400]), r.t)
                R.ok(len(cs), 'interactive answers')
        elif o['a'] == 'raw':
            if r.end is None: continue
            out = (r.out or '')
            if small < cap: continue
            A = re.split(r'\0{3,}', out)
            if evict and 'eof' in (r.err or ''): continue
            if 'send failed' in (r.err or ''): return R.fail('closed', '%s %r: the connection was closed' % (what, [c[0] for c in o['c']]), r.t)
            if A[-1] != '' or len(A) - 1 != len(o['c']): return R.fail('marker', '%s %r: %d end markers for %d requests: %r' % (what, [c[0] for c in o['c']], len(A) - 1, len(o['c']), out[-300:]), r.t)
            for c, a in zip(o['c'], A):
                e = complete(o, c, a.replace('\0', ''), jobs, R, sc, what, r.t)
                if e: return R.fail('incomplete', '%s %r: %s; answer: %r' % (what, c[0], e, a[:400]), r.t)
        elif o['a'] == 'wait':
            auth = o['u'] != 'eve'; lim = IDLE if auth else AUTH; t0 = o['t'] + (o['use'] if auth and o['use'] < IDLE else 0)
            end = None if r.end is None else r.end / U
            if 'eof' not in (r.err or ''): end = None
            if o['use'] and not auth and o['use'] > AUTH: continue
            if end is not None and end < t0 + lim - 1.1 and not evict: return R.fail('early', 'the connection of %s is closed after %.1f s of idleness (limit %d s)' % (o['u'], end - t0, lim), r.t)
            if sc['end'] > t0 + lim + 5 and (end is None or end > t0 + lim + 4): return R.fail('idle', 'the connection of %s, idle since %.1f s, is closed %s' % (o['u'], t0, 'only after %.1f s' % (end - t0) if end else 'never'), r.t)
            if end: R.ok(1, 'idle connections closed'); R.cover('idle %s' % ('authenticated' if auth else 'unauthenticated'))
    base_fds = None
    P = [e for e in tr.probes if 'fds' in e]
    for e in P:
        if e['socks'] > MAXC + 1: return R.fail('unbounded', 'the daemon has %d connections open' % (e['socks'] - 1), e['t'])
        if e['socks'] > MAXC - 1: R.cover('all connections used')
        R.ok(1, 'probes')
    # the others do not delay the jobs
    last = {}
    tick = {j['id']: 10 for j in jobs if j['k'] == 'tick'}
    asked = set()
    for o in sc['ops']:
        for c in ([o['c']] if o['a'] in ('x', 'bad') else o.get('c', [])):
            if c[1] == 301: asked.add('now')
            if c[1] in (301, 302): asked.add('run')
    if asked: return
    for jb in tr.jobs:
        if jb.id in tick:
            if jb.id in last and not 8.9 * U <= jb.t - last[jb.id] <= 13.1 * U: return R.fail('delay', 'J%d, due every 10 s, runs %.2f s after the previous time' % (jb.id, (jb.t - last[jb.id]) / U), jb.t)
            last[jb.id] = jb.t; R.ok(1, 'runs on time')
    for i in tick:
        if last.get(i, 0) < (sc['end'] - 14) * U: return R.fail('delay', 'J%d, due every 10 s, does not run after %.1f s' % (i, last.get(i, 0) / U), sc['end'] * U)
